From 917bf4dbbf442a0c7fb192a99d2d7fb815402155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 001/104] fix: altitude windows that open exactly on the
 threshold lost their first above-period

---
 src/event/search/crossings.rs | 29 ++++++++++++++++++++++++++++-
 src/event/solar/periods.rs    | 17 +++++++++++++----
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 18a107e..94d0c41 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -22,6 +22,8 @@ type Mjd = ModifiedJulianDate;
 pub(crate) const POLY_ZERO_TOL: f64 = 1e-12;
 const MIN_SEGMENT_DAYS: f64 = 1e-6;
 const TAIL_NORM_COEFFS: usize = 4;
+/// Offset at which a window opening on the threshold is probed.
+const START_PROBE_DAYS: f64 = 1e-5;
 
 /// Runtime counters for Chebyshev crossing searches.
 #[derive(Debug, Default, Clone, Copy)]
@@ -98,7 +100,11 @@ where
         return (Vec::new(), false, diagnostics);
     }
 
-    let start_above = eval_signal(signal, period.start, &mut diagnostics) > threshold_sin;
+    let start_above = starts_above(
+        period,
+        |t| eval_signal(signal, t, &mut diagnostics) - threshold_sin,
+        opts,
+    );
     let fallback_step = opts.fallback_scan_step(fallback_step);
 
     if opts.uses_scan_baseline() {
@@ -147,6 +153,27 @@ where
     (crossings, start_above, diagnostics)
 }
 
+/// `true` when the signal is above its threshold as the window opens.
+///
+/// A window that opens *on* the threshold (within the crossing residual) has no
+/// sign of its own there; the side it leaves towards decides.
+pub(crate) fn starts_above<R>(
+    period: Interval<Mjd>,
+    mut residual: R,
+    opts: InternalSearchConfig,
+) -> bool
+where
+    R: FnMut(Mjd) -> f64,
+{
+    let at_start = residual(period.start);
+    if at_start.abs() > opts.chebyshev.max_residual.max(POLY_ZERO_TOL) {
+        return at_start > 0.0;
+    }
+    let span = mjd_days(period.end) - mjd_days(period.start);
+    let probe = START_PROBE_DAYS.min(span * 0.5);
+    residual(mjd_from_days(mjd_days(period.start) + probe)) > 0.0
+}
+
 struct SegmentSearch<'a, F>
 where
     F: Fn(Mjd) -> f64,
diff --git a/src/event/solar/periods.rs b/src/event/solar/periods.rs
index 831dd8d..6adb441 100644
--- a/src/event/solar/periods.rs
+++ b/src/event/solar/periods.rs
@@ -10,6 +10,7 @@ use crate::coordinates::centers::Geodetic;
 use crate::coordinates::frames::ECEF;
 use crate::event::altitude::search::InternalSearchConfig;
 use crate::event::altitude::CrossingEvent;
+use crate::event::search::crossings;
 use crate::event::search::periods as threshold_periods;
 use crate::qtty::*;
 use crate::time::{Interval, ModifiedJulianDate};
@@ -56,12 +57,11 @@ pub(crate) fn solar_altitude_ranges_impl(
     let min_sin = range.0.to::<Radian>().sin();
     let max_sin = range.1.to::<Radian>().sin();
 
-    let start_sin_altitude = sun_altitude_rad(period.start, &site).sin();
     threshold_periods::assemble_in_range_periods(
         min_crossings,
-        start_sin_altitude > min_sin,
+        solar_starts_above(site, period, min_sin, opts),
         max_crossings,
-        start_sin_altitude > max_sin,
+        solar_starts_above(site, period, max_sin, opts),
         period,
     )
 }
@@ -82,11 +82,20 @@ fn solar_labelled_crossings(
     opts: InternalSearchConfig,
 ) -> (Vec<crate::event::search::intervals::LabeledCrossing>, bool) {
     let thr_sin = threshold.to::<Radian>().sin();
-    let start_above = sun_altitude_rad(period.start, &site).sin() > thr_sin;
+    let start_above = solar_starts_above(site, period, thr_sin, opts);
     let (labelled, _) = solar_daily_crossings_impl(site, period, threshold, opts);
     (labelled, start_above)
 }
 
+fn solar_starts_above(
+    site: Geodetic<ECEF>,
+    period: Interval<ModifiedJulianDate>,
+    thr_sin: f64,
+    opts: InternalSearchConfig,
+) -> bool {
+    crossings::starts_above(period, |t| sun_altitude_rad(t, &site).sin() - thr_sin, opts)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 036d1cd63b05d35b8df2fa843584589e7e09ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 002/104] fix: sun crossings near a clipped window edge could
 be labelled with the wrong direction

---
 src/event/solar/daily_events.rs | 38 +++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index ae097af..ebadb12 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -27,6 +27,9 @@ const GRAZE_EPS: f64 = 1e-3;
 /// Hour-angle rate used for candidate spacing (rad per mean solar day).
 const HA_RATE_RAD_PER_DAY: f64 = std::f64::consts::TAU;
 
+/// Offset used to verify on which side of a refined root the Sun is higher.
+const DIRECTION_PROBE: Days = Seconds::new(1.0).to_const::<Day>();
+
 const BRACKET_RADII: [Days; 5] = [
     Minutes::new(15.0).to_const::<Day>(),
     Minutes::new(30.0).to_const::<Day>(),
@@ -449,6 +452,21 @@ fn predict_day_crossings(
                     opts,
                     diagnostics,
                 ) {
+                    Some(root)
+                        if !root_matches_direction(
+                            site,
+                            fallback_window,
+                            root,
+                            candidate.direction,
+                            thr_sin,
+                            diagnostics,
+                        ) =>
+                    {
+                        // Clipped bounds made the solver settle on the other
+                        // threshold crossing of the day.
+                        failed = true;
+                        diagnostics.bracket_failures += 1;
+                    }
                     Some(root) => {
                         if root >= query_window.start && root <= query_window.end {
                             refined.push(LabeledCrossing {
@@ -479,6 +497,26 @@ fn predict_day_crossings(
     }
 }
 
+/// `true` when the precise residual really changes sign in `direction` at `root`.
+fn root_matches_direction(
+    site: Geodetic<ECEF>,
+    bounds: Interval<ModifiedJulianDate>,
+    root: ModifiedJulianDate,
+    direction: i32,
+    thr_sin: f64,
+    diagnostics: &mut SolarDailyDiagnostics,
+) -> bool {
+    let before = max_mjd(bounds.start, add_days(root, -DIRECTION_PROBE));
+    let after = min_mjd(bounds.end, add_days(root, DIRECTION_PROBE));
+    let rise = solar_residual(site, after, thr_sin, diagnostics)
+        - solar_residual(site, before, thr_sin, diagnostics);
+    if direction > 0 {
+        rise >= 0.0
+    } else {
+        rise <= 0.0
+    }
+}
+
 fn predict_solar_threshold_candidates(
     state: SolarDailyState,
     hour_angle_at_threshold: f64,
-- 
2.43.0


From a0ad9b68fcdab5fec1f93bc03bdc0ae8985d169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 003/104] fix: coarse time tolerances made the sun search
 report one crossing twice

---
 src/event/solar/daily_events.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index ebadb12..3362206 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -252,7 +252,7 @@ pub(crate) fn solar_daily_crossings_for_thresholds_impl(
     }
 
     for crossings in &mut results {
-        sort_dedup_labelled(crossings);
+        sort_dedup_labelled(crossings, opts);
     }
 
     results
@@ -329,7 +329,7 @@ pub(crate) fn solar_daily_crossings_impl(
         ));
     }
 
-    sort_dedup_labelled(&mut labelled);
+    sort_dedup_labelled(&mut labelled, opts);
     diagnostics.refined_crossings = labelled.len();
     (labelled, diagnostics)
 }
@@ -987,9 +987,14 @@ pub(crate) fn solar_twilight_profile_impl(
     solar_daily_crossings_for_thresholds_impl(site, window, thresholds, opts)
 }
 
-fn sort_dedup_labelled(crossings: &mut Vec<LabeledCrossing>) {
+fn sort_dedup_labelled(crossings: &mut Vec<LabeledCrossing>, opts: InternalSearchConfig) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
+    // Adjacent day windows each refine a shared crossing to the time tolerance.
+    let same_root = opts.time_tolerance.value() * 4.0;
+    crossings.dedup_by(|a, b| {
+        let dt = (a.t.raw() - b.t.raw()).abs();
+        dt < CROSSING_DEDUPE_EPS || (a.direction == b.direction && dt.value() < same_root)
+    });
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8be9caea4315700e60a5f1ffea510a40e429b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 004/104] fix: the altitude crossing search ignored roots
 dropped by the polynomial solver

---
 src/event/search/crossings.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 94d0c41..5f16bab 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -224,7 +224,8 @@ where
 
     let derivative = poly.derivative();
     let root_opts = root_options_for_segment(&search.opts, segment.span_days());
-    let roots = poly.roots_with(root_opts);
+    let mut roots = poly.roots_with(root_opts);
+    add_missed_roots(|x| poly.evaluate(x), degree, &mut roots);
     search.diagnostics.polynomial_roots += roots.len();
 
     if roots.is_empty() && segment_has_hidden_sign_change(search, segment) {
@@ -258,6 +259,30 @@ where
     search.out.extend(segment_crossings);
 }
 
+/// Add the roots that the polynomial solver dropped: every sign change on a
+/// uniform grid must have a root in its cell.
+fn add_missed_roots(poly: impl Fn(f64) -> f64, degree: usize, roots: &mut Vec<f64>) {
+    let cells = 4 * degree;
+    let node = |i: usize| -1.0 + 2.0 * i as f64 / cells as f64;
+    let found = roots.clone();
+    for i in 0..cells {
+        let (mut lo, mut hi) = (node(i), node(i + 1));
+        let lo_positive = poly(lo) > 0.0;
+        if lo_positive == (poly(hi) > 0.0) || found.iter().any(|r| (lo..=hi).contains(r)) {
+            continue;
+        }
+        for _ in 0..60 {
+            let mid = 0.5 * (lo + hi);
+            if (poly(mid) > 0.0) == lo_positive {
+                lo = mid;
+            } else {
+                hi = mid;
+            }
+        }
+        roots.push(0.5 * (lo + hi));
+    }
+}
+
 fn root_options_for_segment(opts: &InternalSearchConfig, segment_span_days: f64) -> RootOptions {
     let span = segment_span_days.max(MIN_SEGMENT_DAYS);
     let unit_tol = (opts.time_tolerance.value() / span).clamp(f64::EPSILON, 0.25);
-- 
2.43.0


From a21959ec958ea29cc7b60ae6627bebf8f467d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 005/104] fix: culminations within one scan step of a window
 edge were missed

---
 src/event/search/extrema.rs | 38 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/event/search/extrema.rs b/src/event/search/extrema.rs
index b365a30..80e2fbf 100644
--- a/src/event/search/extrema.rs
+++ b/src/event/search/extrema.rs
@@ -58,6 +58,9 @@ const DEFAULT_TOL: Days = Days::new(1e-9);
 /// Maximum iterations for golden‑section.
 const MAX_ITER: usize = 100;
 
+/// Fraction of a scan step at which the window edges are probed.
+const EDGE_FRACTION: f64 = 1e-3;
+
 /// Small probe offset for classification (in the caller's time unit).
 const PROBE_EPS: Days = Days::new(1e-7);
 
@@ -245,28 +248,35 @@ where
         return result;
     }
 
-    let mut t0 = t_start_v;
-    let mut f0 = f(t0);
-    let mut t1 = {
-        let t_next = crate::time::ModifiedJulianDate::new((t0.raw() + step_v).value());
-        if t_next.raw() <= t_end_v.raw() {
+    // The first and last steps are split close to the window edges, so that an
+    // extremum inside them still shows as a monotonicity change.
+    let edge = step_v.min(t_end_v - t_start_v) * EDGE_FRACTION;
+    let inner_start = t_start_v + edge;
+    let inner_end = t_end_v - edge;
+    let next_scan_point = |t: Mjd| {
+        if t >= inner_end {
+            return t_end_v;
+        }
+        let t_next = if t > inner_start {
+            t + step_v
+        } else {
+            t_start_v + step_v
+        };
+        if t_next < inner_end {
             t_next
         } else {
-            t_end_v
+            inner_end
         }
     };
+
+    let mut t0 = t_start_v;
+    let mut f0 = f(t0);
+    let mut t1 = inner_start;
     let mut f1 = f(t1);
     let mut prev_rising = f1 > f0;
 
     loop {
-        let t2 = {
-            let t_next = crate::time::ModifiedJulianDate::new((t1.raw() + step_v).value());
-            if t_next.raw() <= t_end_v.raw() {
-                t_next
-            } else {
-                t_end_v
-            }
-        };
+        let t2 = next_scan_point(t1);
         if t2 <= t1 {
             break;
         }
-- 
2.43.0


From cbb597de5c01d6bc82053d5d2b0fcb62a82d147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 006/104] fix: coarse time tolerances made the altitude search
 discard its roots and miss short arcs

---
 src/event/search/crossings.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 5f16bab..cf1a3a0 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -245,6 +245,7 @@ where
             search.period,
             segment,
             root_x,
+            slope,
             search.signal,
             search.threshold_sin,
             search.opts,
@@ -344,10 +345,12 @@ where
     ));
 }
 
+#[allow(clippy::too_many_arguments)]
 fn validate_candidate<F>(
     period: Interval<Mjd>,
     segment: Segment,
     root_x: f64,
+    slope: f64,
     signal: &F,
     threshold_sin: f64,
     opts: InternalSearchConfig,
@@ -364,7 +367,11 @@ where
     };
 
     let residual = (eval_signal(signal, refined, diagnostics) - threshold_sin).abs();
-    if !residual.is_finite() || residual > opts.chebyshev.max_residual {
+    // A root known to the time tolerance keeps the residual the signal can build
+    // up over that time.
+    let slope_per_day = slope * 2.0 / segment.span_days();
+    let tolerated = slope_per_day * opts.time_tolerance.value() * 4.0;
+    if !residual.is_finite() || residual > opts.chebyshev.max_residual.max(tolerated) {
         return None;
     }
 
-- 
2.43.0


From 862af1d2e3cc79b17617373d898a984c841e0fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 007/104] fix: coarse time tolerances made the altitude search
 report one crossing twice

---
 src/event/search/crossings.rs   | 14 +++++++++++---
 src/event/solar/daily_events.rs | 18 ++++--------------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index cf1a3a0..1d128c9 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -149,7 +149,7 @@ where
         t = next;
     }
 
-    sort_dedup_crossings(&mut crossings);
+    sort_dedup_crossings(&mut crossings, opts);
     (crossings, start_above, diagnostics)
 }
 
@@ -514,9 +514,17 @@ fn looser_radius_exhausts_segment(center: f64, radius: f64, start: f64, end: f64
     center - radius <= start && center + radius >= end
 }
 
-fn sort_dedup_crossings(crossings: &mut Vec<LabeledCrossing>) {
+pub(crate) fn sort_dedup_crossings(
+    crossings: &mut Vec<LabeledCrossing>,
+    opts: InternalSearchConfig,
+) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
+    // Adjacent searches each refine a shared crossing to the time tolerance.
+    let same_root = opts.time_tolerance.value() * 8.0;
+    crossings.dedup_by(|a, b| {
+        let dt = (a.t.raw() - b.t.raw()).abs();
+        dt < CROSSING_DEDUPE_EPS || (a.direction == b.direction && dt.value() < same_root)
+    });
 }
 
 #[cfg(test)]
diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index 3362206..e920fe0 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -12,7 +12,7 @@ use crate::astro::earth_rotation::gmst_default;
 use crate::coordinates::centers::Geodetic;
 use crate::coordinates::frames::ECEF;
 use crate::event::altitude::search::{
-    InternalSearchConfig, CROSSING_DEDUPE_EPS, DIURNAL_CHEBY_SCAN_STEP, ONE_DAY, ROOT_INTERVAL_EPS,
+    InternalSearchConfig, DIURNAL_CHEBY_SCAN_STEP, ONE_DAY, ROOT_INTERVAL_EPS,
 };
 use crate::event::altitude::{CrossingDirection, CrossingEvent};
 use crate::event::search::crossings;
@@ -251,8 +251,8 @@ pub(crate) fn solar_daily_crossings_for_thresholds_impl(
         }
     }
 
-    for crossings in &mut results {
-        sort_dedup_labelled(crossings, opts);
+    for labelled in &mut results {
+        crossings::sort_dedup_crossings(labelled, opts);
     }
 
     results
@@ -329,7 +329,7 @@ pub(crate) fn solar_daily_crossings_impl(
         ));
     }
 
-    sort_dedup_labelled(&mut labelled, opts);
+    crossings::sort_dedup_crossings(&mut labelled, opts);
     diagnostics.refined_crossings = labelled.len();
     (labelled, diagnostics)
 }
@@ -987,16 +987,6 @@ pub(crate) fn solar_twilight_profile_impl(
     solar_daily_crossings_for_thresholds_impl(site, window, thresholds, opts)
 }
 
-fn sort_dedup_labelled(crossings: &mut Vec<LabeledCrossing>, opts: InternalSearchConfig) {
-    crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    // Adjacent day windows each refine a shared crossing to the time tolerance.
-    let same_root = opts.time_tolerance.value() * 4.0;
-    crossings.dedup_by(|a, b| {
-        let dt = (a.t.raw() - b.t.raw()).abs();
-        dt < CROSSING_DEDUPE_EPS || (a.direction == b.direction && dt.value() < same_root)
-    });
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 64cb33372f812d42c88e87713b98a91b3660db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 008/104] fix: a sun transit at the day boundary could be
 skipped with its crossings

---
 src/event/solar/daily_events.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index e920fe0..150bde2 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -179,9 +179,13 @@ impl SolarEventContext {
             while full_day_start <= last_day_start {
                 let full_day_end = add_days(full_day_start, ONE_DAY);
                 let full_day = Interval::new(full_day_start, full_day_end);
+                let state = solar_daily_state(site, full_day);
+                if let Some(skipped) = skipped_transit(days.last(), state) {
+                    days.push(skipped);
+                }
                 days.push(SolarDayWindow {
                     transit_day: full_day,
-                    state: solar_daily_state(site, full_day),
+                    state,
                 });
                 full_day_start = full_day_end;
             }
@@ -190,6 +194,26 @@ impl SolarEventContext {
     }
 }
 
+/// The transit between two consecutive days that neither of them claimed.
+///
+/// Where the Sun transits at the day boundary, the approximate transit of one
+/// day can fall at its start and that of the next day at its end.
+fn skipped_transit(
+    previous: Option<&SolarDayWindow>,
+    next: Option<SolarDailyState>,
+) -> Option<SolarDayWindow> {
+    let previous = previous?;
+    let state = previous.state?;
+    let gap = (next?.approx_transit.raw() - state.approx_transit.raw()).value();
+    (gap > 1.5).then(|| SolarDayWindow {
+        transit_day: previous.transit_day,
+        state: Some(SolarDailyState {
+            approx_transit: add_days(state.approx_transit, ONE_DAY),
+            ..state
+        }),
+    })
+}
+
 /// Find labelled threshold crossings for multiple thresholds in one daily pass.
 pub(crate) fn solar_daily_crossings_for_thresholds_impl(
     site: Geodetic<ECEF>,
-- 
2.43.0


From 52ef3e43362a43d4cbdcd1a990ff10eb5f0d9ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 009/104] fix: short altitude arcs between two dropped
 polynomial roots were missed

---
 src/event/search/crossings.rs | 53 +++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 1d128c9..780ffe6 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -225,7 +225,12 @@ where
     let derivative = poly.derivative();
     let root_opts = root_options_for_segment(&search.opts, segment.span_days());
     let mut roots = poly.roots_with(root_opts);
-    add_missed_roots(|x| poly.evaluate(x), degree, &mut roots);
+    add_missed_roots(
+        |x| poly.evaluate(x),
+        |x| derivative.evaluate(x),
+        degree,
+        &mut roots,
+    );
     search.diagnostics.polynomial_roots += roots.len();
 
     if roots.is_empty() && segment_has_hidden_sign_change(search, segment) {
@@ -260,28 +265,40 @@ where
     search.out.extend(segment_crossings);
 }
 
-/// Add the roots that the polynomial solver dropped: every sign change on a
-/// uniform grid must have a root in its cell.
-fn add_missed_roots(poly: impl Fn(f64) -> f64, degree: usize, roots: &mut Vec<f64>) {
+/// Add the roots that the polynomial solver dropped: between two consecutive
+/// turning points, a sign change must have its root.
+fn add_missed_roots(
+    poly: impl Fn(f64) -> f64,
+    derivative: impl Fn(f64) -> f64,
+    degree: usize,
+    roots: &mut Vec<f64>,
+) {
     let cells = 4 * degree;
     let node = |i: usize| -1.0 + 2.0 * i as f64 / cells as f64;
+    let mut turns = vec![-1.0];
+    turns.extend((0..cells).filter_map(|i| bisect_sign_change(&derivative, node(i), node(i + 1))));
+    turns.push(1.0);
     let found = roots.clone();
-    for i in 0..cells {
-        let (mut lo, mut hi) = (node(i), node(i + 1));
-        let lo_positive = poly(lo) > 0.0;
-        if lo_positive == (poly(hi) > 0.0) || found.iter().any(|r| (lo..=hi).contains(r)) {
-            continue;
-        }
-        for _ in 0..60 {
-            let mid = 0.5 * (lo + hi);
-            if (poly(mid) > 0.0) == lo_positive {
-                lo = mid;
-            } else {
-                hi = mid;
-            }
+    roots.extend(turns.windows(2).filter_map(|w| {
+        let known = found.iter().any(|r| (w[0]..=w[1]).contains(r));
+        bisect_sign_change(&poly, w[0], w[1]).filter(|_| !known)
+    }));
+}
+
+fn bisect_sign_change(f: impl Fn(f64) -> f64, mut lo: f64, mut hi: f64) -> Option<f64> {
+    let lo_positive = f(lo) > 0.0;
+    if lo_positive == (f(hi) > 0.0) {
+        return None;
+    }
+    for _ in 0..60 {
+        let mid = 0.5 * (lo + hi);
+        if (f(mid) > 0.0) == lo_positive {
+            lo = mid;
+        } else {
+            hi = mid;
         }
-        roots.push(0.5 * (lo + hi));
     }
+    Some(0.5 * (lo + hi))
 }
 
 fn root_options_for_segment(opts: &InternalSearchConfig, segment_span_days: f64) -> RootOptions {
-- 
2.43.0


From 9fb46e00d6200fa9a788fbd1abb14f97fd44723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 010/104] fix: short sun arcs at high latitudes were missed by
 a too narrow grazing margin

---
 src/event/solar/daily_events.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index 150bde2..23187de 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -24,6 +24,10 @@ use crate::time::{Interval, JulianDate, ModifiedJulianDate};
 use super::altitude::sun_altitude_rad;
 
 const GRAZE_EPS: f64 = 1e-3;
+
+/// Largest change of the Sun's declination (radians) between the middle of a
+/// day, where it is evaluated, and any crossing of that day.
+const DECLINATION_DRIFT: f64 = 5e-3;
 /// Hour-angle rate used for candidate spacing (rad per mean solar day).
 const HA_RATE_RAD_PER_DAY: f64 = std::f64::consts::TAU;
 
@@ -408,13 +412,14 @@ fn predict_day_crossings(
     }
 
     let cos_h0 = (thr_sin - sin_lat * state.sin_dec) / denom;
-    let case = if cos_h0 > 1.0 + GRAZE_EPS {
+    let graze_eps = GRAZE_EPS + DECLINATION_DRIFT / denom.abs();
+    let case = if cos_h0 > 1.0 + graze_eps {
         DayThresholdCase::AlwaysBelow
-    } else if cos_h0 < -1.0 - GRAZE_EPS {
+    } else if cos_h0 < -1.0 - graze_eps {
         DayThresholdCase::AlwaysAbove
     } else if !(-1.0..=1.0).contains(&cos_h0)
-        || (cos_h0 + 1.0).abs() < GRAZE_EPS
-        || (cos_h0 - 1.0).abs() < GRAZE_EPS
+        || (cos_h0 + 1.0).abs() < graze_eps
+        || (cos_h0 - 1.0).abs() < graze_eps
     {
         diagnostics.grazing_days += 1;
         return fallback_solar_crossings_for_window(
-- 
2.43.0


From 497de85ed3118e0384b063c9f6ea1116a92c85d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 011/104] fix: short altitude arcs were lost when the
 refinement bracket spanned both crossings

---
 src/event/search/crossings.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 780ffe6..c92b9cc 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -22,6 +22,8 @@ type Mjd = ModifiedJulianDate;
 pub(crate) const POLY_ZERO_TOL: f64 = 1e-12;
 const MIN_SEGMENT_DAYS: f64 = 1e-6;
 const TAIL_NORM_COEFFS: usize = 4;
+/// Smallest bracket half-width tried around a polynomial root.
+const MIN_REFINE_RADIUS_DAYS: f64 = 5e-5;
 /// Offset at which a window opening on the threshold is probed.
 const START_PROBE_DAYS: f64 = 1e-5;
 
@@ -422,8 +424,10 @@ where
         return Some(mjd_from_days(t_days));
     }
 
-    let mut radius = margin;
-    for _ in 0..8 {
+    // Grow the bracket from the polynomial's own accuracy: a wide one would take
+    // in both crossings of a short arc.
+    let mut radius = margin.min(MIN_REFINE_RADIUS_DAYS);
+    for _ in 0..16 {
         let lo = (mjd_days(initial) - radius).max(segment_start);
         let hi = (mjd_days(initial) + radius).min(segment_end);
         if hi > lo {
-- 
2.43.0


From 24ca7d5cfea284faab840be2fdf5ce3dffa11b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 012/104] fix: windows opening within the time tolerance of a
 crossing lost their first above-period

---
 src/event/search/crossings.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index c92b9cc..316f043 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -24,8 +24,8 @@ const MIN_SEGMENT_DAYS: f64 = 1e-6;
 const TAIL_NORM_COEFFS: usize = 4;
 /// Smallest bracket half-width tried around a polynomial root.
 const MIN_REFINE_RADIUS_DAYS: f64 = 5e-5;
-/// Offset at which a window opening on the threshold is probed.
-const START_PROBE_DAYS: f64 = 1e-5;
+/// Smallest offset inside a window at which its opening side is taken.
+const START_PROBE_DAYS: f64 = 1e-8;
 
 /// Runtime counters for Chebyshev crossing searches.
 #[derive(Debug, Default, Clone, Copy)]
@@ -157,8 +157,8 @@ where
 
 /// `true` when the signal is above its threshold as the window opens.
 ///
-/// A window that opens *on* the threshold (within the crossing residual) has no
-/// sign of its own there; the side it leaves towards decides.
+/// A window may open on the threshold (on a crossing returned by an earlier
+/// search, say), so the side is taken a time tolerance inside the window.
 pub(crate) fn starts_above<R>(
     period: Interval<Mjd>,
     mut residual: R,
@@ -167,13 +167,10 @@ pub(crate) fn starts_above<R>(
 where
     R: FnMut(Mjd) -> f64,
 {
-    let at_start = residual(period.start);
-    if at_start.abs() > opts.chebyshev.max_residual.max(POLY_ZERO_TOL) {
-        return at_start > 0.0;
-    }
-    let span = mjd_days(period.end) - mjd_days(period.start);
-    let probe = START_PROBE_DAYS.min(span * 0.5);
-    residual(mjd_from_days(mjd_days(period.start) + probe)) > 0.0
+    let start = mjd_days(period.start);
+    let span = mjd_days(period.end) - start;
+    let inside = (opts.time_tolerance.value() * 4.0).max(START_PROBE_DAYS);
+    residual(mjd_from_days(start + inside.min(span * 0.5))) > 0.0
 }
 
 struct SegmentSearch<'a, F>
-- 
2.43.0


From 4612b4d584e845a9487c8d3a2dd55181a5d4fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 013/104] fix: a shallow altitude crossing on a search boundary
 was reported twice

---
 src/event/search/crossings.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 316f043..26b6fea 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -24,6 +24,8 @@ const MIN_SEGMENT_DAYS: f64 = 1e-6;
 const TAIL_NORM_COEFFS: usize = 4;
 /// Smallest bracket half-width tried around a polynomial root.
 const MIN_REFINE_RADIUS_DAYS: f64 = 5e-5;
+/// Two crossings in the same direction closer than this are the same crossing.
+const SAME_DIRECTION_EPS_DAYS: f64 = 1e-5;
 /// Smallest offset inside a window at which its opening side is taken.
 const START_PROBE_DAYS: f64 = 1e-8;
 
@@ -537,8 +539,9 @@ pub(crate) fn sort_dedup_crossings(
     opts: InternalSearchConfig,
 ) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    // Adjacent searches each refine a shared crossing to the time tolerance.
-    let same_root = opts.time_tolerance.value() * 8.0;
+    // Adjacent searches each refine a shared crossing, to the time tolerance or,
+    // where the signal is shallow, to the residual one.
+    let same_root = (opts.time_tolerance.value() * 8.0).max(SAME_DIRECTION_EPS_DAYS);
     crossings.dedup_by(|a, b| {
         let dt = (a.t.raw() - b.t.raw()).abs();
         dt < CROSSING_DEDUPE_EPS || (a.direction == b.direction && dt.value() < same_root)
-- 
2.43.0


From fc8696ccfda2126ed1196fec829b660fc2660be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 014/104] fix: an SPK file's superseded segment was used
 instead of the later one covering the epoch

---
 src/formats/spice/kernel.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/kernel.rs b/src/formats/spice/kernel.rs
index f969d90..29b722d 100644
--- a/src/formats/spice/kernel.rs
+++ b/src/formats/spice/kernel.rs
@@ -246,7 +246,8 @@ impl SpkKernel {
             }
             // Outgoing forward edges (segments where node is the target).
             if let Some(idxs) = self.by_target.get(&node) {
-                for &i in idxs {
+                // Later segments in a file take precedence over earlier ones.
+                for &i in idxs.iter().rev() {
                     let s = &self.segments[i];
                     if epoch < s.start_tdb_seconds || epoch > s.end_tdb_seconds {
                         continue;
@@ -258,7 +259,7 @@ impl SpkKernel {
                 }
             }
             // Reverse edges (segments where node is the center).
-            for (i, s) in self.segments.iter().enumerate() {
+            for (i, s) in self.segments.iter().enumerate().rev() {
                 if s.center != node {
                     continue;
                 }
-- 
2.43.0


From 5faa1c05e30fb411aaffe6905126b9d2d2f62ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 015/104] fix: a CK file's superseded segment was used instead
 of the later one covering the ticks

---
 src/formats/spice/ck.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formats/spice/ck.rs b/src/formats/spice/ck.rs
index f2b7b22..c571409 100644
--- a/src/formats/spice/ck.rs
+++ b/src/formats/spice/ck.rs
@@ -153,7 +153,8 @@ impl CkKernel {
     /// Return the rotation quaternion for instrument `inst_id` at SCLK ticks `sclkdp`.
     pub fn rotation(&self, inst_id: i32, sclkdp: f64) -> Result<[f64; 4], SpiceError> {
         let mut coverage: Option<(f64, f64)> = None;
-        for segment in &self.segments {
+        // Later segments in a file take precedence over earlier ones.
+        for segment in self.segments.iter().rev() {
             if segment.inst_id != inst_id {
                 continue;
             }
-- 
2.43.0


From 0f9b83b804eed40da9c38e943d39b7b64757b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 016/104] fix: big-endian DAF kernels had their segment data
 read as little-endian

---
 src/formats/spice/daf.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index b665dd5..aa63589 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -204,8 +204,11 @@ impl Daf {
     #[inline]
     pub fn read_f64_at_word(&self, data: &[u8], word: usize) -> f64 {
         let offset = (word - 1) * 8;
-        // DE440/DE441 kernels from NAIF are little-endian on modern systems.
-        read_f64_le(data, offset)
+        if is_big_endian(data, self.nd, self.ni) {
+            read_f64_be(data, offset)
+        } else {
+            read_f64_le(data, offset)
+        }
     }
 }
 
@@ -293,11 +296,15 @@ impl DafRaw {
         })
     }
 
-    /// Read an `f64` at a 1-based word index (little-endian).
+    /// Read an `f64` at a 1-based word index, in the file's byte order.
     #[inline]
     pub fn read_f64_at_word(&self, word: usize) -> f64 {
         let offset = (word - 1) * 8;
-        read_f64_le(&self.bytes, offset)
+        if is_big_endian(&self.bytes, self.nd, self.ni) {
+            read_f64_be(&self.bytes, offset)
+        } else {
+            read_f64_le(&self.bytes, offset)
+        }
     }
 
     /// Borrow the raw kernel bytes.
@@ -306,6 +313,12 @@ impl DafRaw {
     }
 }
 
+/// Whether the file record of `data` states `nd`/`ni` in big-endian byte order.
+#[inline]
+fn is_big_endian(data: &[u8], nd: usize, ni: usize) -> bool {
+    data.len() >= 16 && read_i32_be(data, 8) == nd as i32 && read_i32_be(data, 12) == ni as i32
+}
+
 #[inline]
 fn read_i32_le(data: &[u8], offset: usize) -> i32 {
     i32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
-- 
2.43.0


From 8f0400ff458018f7d58c81fee4c82bbcff95f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 017/104] fix: a DAF kernel whose summary records form a cycle
 was read without end

---
 src/formats/spice/daf.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index aa63589..6db33d4 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -148,6 +148,7 @@ impl Daf {
 
         let mut summaries = Vec::new();
         let mut rec = fward;
+        let mut visited = 0;
 
         while rec > 0 {
             let rec_offset = (rec - 1) * 1024;
@@ -194,6 +195,12 @@ impl Daf {
                 });
             }
 
+            visited += 1;
+            if visited > data.len() / 1024 {
+                return Err(SpiceError::FormatParse(
+                    "DAF summary records form a cycle".to_string(),
+                ));
+            }
             rec = next;
         }
 
@@ -253,6 +260,7 @@ impl DafRaw {
 
         let mut raw_summaries = Vec::new();
         let mut rec = fward;
+        let mut visited = 0;
         while rec > 0 {
             let rec_offset = (rec - 1) * 1024;
             if rec_offset + 1024 > data.len() {
@@ -284,6 +292,12 @@ impl DafRaw {
                 }
                 raw_summaries.push(RawSummary { doubles, integers });
             }
+            visited += 1;
+            if visited > data.len() / 1024 {
+                return Err(SpiceError::FormatParse(
+                    "DAF summary records form a cycle".to_string(),
+                ));
+            }
             rec = next;
         }
 
-- 
2.43.0


From ec4551617a58c9969f54aef884aeffe1912fa146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 018/104] fix: SPK and CK kernels with segment words outside
 the file panicked while loading

---
 src/formats/spice/ck.rs      |  2 +-
 src/formats/spice/segment.rs | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/formats/spice/ck.rs b/src/formats/spice/ck.rs
index c571409..cc0113a 100644
--- a/src/formats/spice/ck.rs
+++ b/src/formats/spice/ck.rs
@@ -199,7 +199,7 @@ fn read_type1_segment(
     start_word: usize,
     end_word: usize,
 ) -> Result<CkSegment1, SpiceError> {
-    if end_word <= start_word {
+    if end_word <= start_word || start_word == 0 || end_word > daf.bytes().len() / 8 {
         return Err(SpiceError::FormatParse(
             "CK segment has an invalid word range".to_string(),
         ));
diff --git a/src/formats/spice/segment.rs b/src/formats/spice/segment.rs
index 0a2fb55..bf27c11 100644
--- a/src/formats/spice/segment.rs
+++ b/src/formats/spice/segment.rs
@@ -384,6 +384,17 @@ pub fn segment_for_summary(
     daf: &Daf,
     summary: &Summary,
 ) -> Result<SpkSegment, SpiceError> {
+    let words = file_data.len() / 8;
+    if matches!(summary.data_type, 2 | 3 | 9 | 13)
+        && (summary.start_word == 0 || summary.end_word > words)
+    {
+        return Err(SpiceError::Parse {
+            message: format!(
+                "segment words [{}..{}] lie outside the file ({words} words)",
+                summary.start_word, summary.end_word
+            ),
+        });
+    }
     match summary.data_type {
         2 => Ok(SpkSegment::Type2(read_chebyshev(
             file_data, daf, summary, 3,
-- 
2.43.0


From 2602678e63251cbc2fce07160146dceb9760f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 019/104] fix: a DAF kernel with a negative record number
 panicked while loading

---
 src/formats/spice/daf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index 6db33d4..070bb1c 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -151,8 +151,8 @@ impl Daf {
         let mut visited = 0;
 
         while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
+            let rec_offset = (rec - 1).saturating_mul(1024);
+            if rec_offset.saturating_add(1024) > data.len() {
                 return Err(SpiceError::FormatParse(format!(
                     "Summary record {} extends past EOF",
                     rec
@@ -262,8 +262,8 @@ impl DafRaw {
         let mut rec = fward;
         let mut visited = 0;
         while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
+            let rec_offset = (rec - 1).saturating_mul(1024);
+            if rec_offset.saturating_add(1024) > data.len() {
                 return Err(SpiceError::FormatParse(format!(
                     "Summary record {} extends past EOF",
                     rec
-- 
2.43.0


From d5319868b45f69a58711d086c0ac96d5a1ed91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 020/104] fix: a text kernel that failed to load left its
 leading sections registered

---
 src/spice/context.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/spice/context.rs b/src/spice/context.rs
index 0dd4e1f..d0aaf84 100644
--- a/src/spice/context.rs
+++ b/src/spice/context.rs
@@ -120,26 +120,31 @@ impl SpiceContext {
             .keys()
             .any(|key| key.starts_with("INS") && key.contains("_FOV"));
 
-        if has_lsk {
-            self.kernel_set
-                .set_lsk(alias.clone(), LeapSecondKernel::from_text(text)?);
+        // Parse every section before registering any of them, so that a kernel
+        // that fails to load leaves the context unchanged.
+        let lsk = has_lsk
+            .then(|| LeapSecondKernel::from_text(text))
+            .transpose()?;
+        let fk = has_fk.then(|| FrameKernel::from_text(text)).transpose()?;
+        let pck = has_pck.then(|| PckKernel::from_text(text)).transpose()?;
+        let sclks = has_sclk.then(|| SclkKernel::from_text(text)).transpose()?;
+        let ik = has_ik.then(|| IkKernel::from_text(text)).transpose()?;
+
+        if let Some(lsk) = lsk {
+            self.kernel_set.set_lsk(alias.clone(), lsk);
         }
-        if has_fk {
-            let fk = FrameKernel::from_text(text)?;
+        if let Some(fk) = fk {
             self.frame_registry.add_fk(&fk);
             self.kernel_set.add_fk(alias.clone(), fk);
         }
-        if has_pck {
-            self.kernel_set
-                .add_pck_text(alias.clone(), PckKernel::from_text(text)?);
+        if let Some(pck) = pck {
+            self.kernel_set.add_pck_text(alias.clone(), pck);
         }
-        if has_sclk {
-            for sclk in SclkKernel::from_text(text)? {
-                self.kernel_set.add_sclk(alias.clone(), sclk);
-            }
+        for sclk in sclks.into_iter().flatten() {
+            self.kernel_set.add_sclk(alias.clone(), sclk);
         }
-        if has_ik {
-            self.kernel_set.add_ik(alias, IkKernel::from_text(text)?);
+        if let Some(ik) = ik {
+            self.kernel_set.add_ik(alias, ik);
         }
         Ok(())
     }
-- 
2.43.0


From 77f0397eebd30ee6736415998514361e6928354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 021/104] fix: a rotation query on a frame defined relative to
 itself overflowed the stack

---
 src/spice/context.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/spice/context.rs b/src/spice/context.rs
index d0aaf84..c462b08 100644
--- a/src/spice/context.rs
+++ b/src/spice/context.rs
@@ -169,8 +169,8 @@ impl SpiceContext {
         if from_id == to_id {
             return Ok(identity_3x3());
         }
-        let from_to_j2000 = self.frame_to_j2000(from_id, epoch_tdb_s)?;
-        let to_to_j2000 = self.frame_to_j2000(to_id, epoch_tdb_s)?;
+        let from_to_j2000 = self.frame_to_j2000(from_id, epoch_tdb_s, &mut Vec::new())?;
+        let to_to_j2000 = self.frame_to_j2000(to_id, epoch_tdb_s, &mut Vec::new())?;
         Ok(mat3_mul(mat3_transpose(to_to_j2000), from_to_j2000))
     }
 
@@ -236,10 +236,17 @@ impl SpiceContext {
         &self,
         frame_id: i32,
         epoch_tdb_s: f64,
+        visited: &mut Vec<i32>,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         if frame_id == 1 {
             return Ok(identity_3x3());
         }
+        if visited.contains(&frame_id) {
+            return Err(SpiceContextError::UnsupportedKernelQuery {
+                message: format!("frame {frame_id} is defined relative to itself"),
+            });
+        }
+        visited.push(frame_id);
 
         let spec = self
             .frame_registry
@@ -251,7 +258,7 @@ impl SpiceContext {
                 .frame_registry
                 .frame_by_name(relative_name)
                 .map_err(spice_error_to_context)?;
-            let relative_to_j2000 = self.frame_to_j2000(relative.id, epoch_tdb_s)?;
+            let relative_to_j2000 = self.frame_to_j2000(relative.id, epoch_tdb_s, visited)?;
             return Ok(mat3_mul(relative_to_j2000, *matrix));
         }
 
-- 
2.43.0


From b712bcf6c264ca8fe11f34a82e6022de0f6b84c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 022/104] fix: a PCK giving only radii hid a body's orientation
 and made its rotation panic

---
 src/formats/spice/pck.rs | 6 ++++++
 src/spice/context.rs     | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/formats/spice/pck.rs b/src/formats/spice/pck.rs
index 42d20c8..2736017 100644
--- a/src/formats/spice/pck.rs
+++ b/src/formats/spice/pck.rs
@@ -37,6 +37,12 @@ pub struct BodyOrientation {
 }
 
 impl BodyOrientation {
+    /// Whether the kernel gives the pole and prime meridian of the body, and not
+    /// only its radii.
+    pub fn has_orientation(&self) -> bool {
+        !(self.pole_ra.is_empty() || self.pole_dec.is_empty() || self.pm.is_empty())
+    }
+
     /// Rotation matrix from body-fixed frame to J2000 at epoch `tdb_s`.
     ///
     /// Uses first-order IAU pole RA/Dec/PM, ignoring nutation terms.
diff --git a/src/spice/context.rs b/src/spice/context.rs
index c462b08..9793d4e 100644
--- a/src/spice/context.rs
+++ b/src/spice/context.rs
@@ -284,7 +284,7 @@ impl SpiceContext {
         epoch_tdb_s: f64,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         for pck in self.kernel_set.pck_text_kernels().rev() {
-            if let Some(orientation) = pck.body(body_id) {
+            if let Some(orientation) = pck.body(body_id).filter(|o| o.has_orientation()) {
                 return Ok(orientation.rotation_to_j2000(epoch_tdb_s));
             }
         }
-- 
2.43.0


From 2b4f66b6279606a3350d031f3fcc2beeca309e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 023/104] fix: the body-fixed to J2000 rotation of a PCK body
 turned its pole the wrong way

---
 src/formats/spice/pck.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/pck.rs b/src/formats/spice/pck.rs
index 2736017..d1c34c2 100644
--- a/src/formats/spice/pck.rs
+++ b/src/formats/spice/pck.rs
@@ -59,8 +59,8 @@ impl BodyOrientation {
 
         mat3_mul(
             mat3_mul(
-                r3(std::f64::consts::FRAC_PI_2 + ra),
-                r1(std::f64::consts::FRAC_PI_2 - dec),
+                r3(-(std::f64::consts::FRAC_PI_2 + ra)),
+                r1(-(std::f64::consts::FRAC_PI_2 - dec)),
             ),
             r3(-w),
         )
-- 
2.43.0


From 2c3de92dc05818c90e8ec19f9d2c3e751ba3bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 024/104] fix: extreme SPK descriptor and word values
 overflowed while loading

---
 src/formats/spice/segment.rs | 13 +++++++------
 src/formats/spice/spk.rs     |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/formats/spice/segment.rs b/src/formats/spice/segment.rs
index bf27c11..62581b2 100644
--- a/src/formats/spice/segment.rs
+++ b/src/formats/spice/segment.rs
@@ -463,12 +463,13 @@ fn read_chebyshev(
             message: format!("segment record count overflow: n_records={n_records} rsize={rsize}"),
         })?;
     let data_start_word = summary.start_word;
-    if data_start_word + total - 1 > summary.end_word {
+    let data_end_word = data_start_word.saturating_add(total - 1);
+    if data_end_word > summary.end_word {
         return Err(SpiceError::Parse {
             message: format!(
                 "segment data window [{}..{}] does not fit in summary [{}..{}]",
                 data_start_word,
-                data_start_word + total - 1,
+                data_end_word,
                 summary.start_word,
                 summary.end_word
             ),
@@ -537,8 +538,8 @@ fn read_discrete_states(
         message: format!("SPK Type {data_type} state count overflow: {n_records}"),
     })?;
     let epoch_start = state_len;
-    let epoch_end = epoch_start + n_records;
-    if epoch_end + 2 > words.len() {
+    let epoch_end = epoch_start.saturating_add(n_records);
+    if epoch_end > words.len() - 2 {
         return Err(SpiceError::Parse {
             message: format!("SPK Type {data_type} payload too short for {n_records} records"),
         });
@@ -565,7 +566,7 @@ fn read_discrete_states(
     let interpolation_size = match data_type {
         9 => {
             let degree = descriptor;
-            if degree == 0 || degree + 1 > n_records || degree > 31 {
+            if degree == 0 || degree >= n_records || degree > 31 {
                 return Err(SpiceError::Parse {
                     message: format!(
                         "SPK Type 9 invalid Lagrange degree {degree} for {n_records} records"
@@ -575,7 +576,7 @@ fn read_discrete_states(
             degree
         }
         13 => {
-            let samples = descriptor + 1;
+            let samples = descriptor.saturating_add(1);
             if samples < 2 || samples > n_records || samples > 16 {
                 return Err(SpiceError::Parse {
                     message: format!(
diff --git a/src/formats/spice/spk.rs b/src/formats/spice/spk.rs
index 813f5ab..b62fc4d 100644
--- a/src/formats/spice/spk.rs
+++ b/src/formats/spice/spk.rs
@@ -128,7 +128,7 @@ pub fn read_segment(
             summary.end_word, summary.start_word
         )));
     }
-    if summary.end_word < summary.start_word + 3 {
+    if summary.end_word - summary.start_word < 3 {
         return Err(SpiceError::FormatParse(format!(
             "SPK summary span too small for trailer (start={}, end={})",
             summary.start_word, summary.end_word
-- 
2.43.0


From ea234d92e9009bf1484e706a43880cc3c9dd8f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 025/104] verification hook: generic azimuth periods behind
 bench-internals

---
 src/event/azimuth/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/event/azimuth/mod.rs b/src/event/azimuth/mod.rs
index 26cf22b..e23d104 100644
--- a/src/event/azimuth/mod.rs
+++ b/src/event/azimuth/mod.rs
@@ -130,3 +130,13 @@ pub use events::{
 // ---------------------------------------------------------------------------
 
 pub use provider::{azimuth_periods, AzimuthProvider};
+
+/// Periods of an azimuth band for a body that only supplies its azimuth (verification hook).
+#[cfg(feature = "bench-internals")]
+#[doc(hidden)]
+pub fn generic_azimuth_periods<T: AzimuthProvider>(
+    target: &T,
+    query: &AzimuthQuery,
+) -> Vec<crate::time::Interval<crate::time::ModifiedJulianDate>> {
+    events::azimuth_range_periods(target, query)
+}
-- 
2.43.0


From 0826023b0571bfbadf326782654b5af3b5336b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 026/104] fix: azimuth crossings of a bearing included passages
 of the opposite bearing

---
 src/event/azimuth/events.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index 1ed108b..9746494 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -66,10 +66,10 @@ fn scan_step_for<T: AzimuthProvider>(target: &T, _opts: &SearchOpts) -> Days {
 ///
 /// This sidesteps the 0°/360° discontinuity of the raw azimuth: because sine
 /// has period 2π, `sin(az + 2π − b) = sin(az − b)`, the function is smooth
-/// and sign-changes exactly where `az(t) = bearing  (mod 360°)`.
+/// and sign-changes exactly where `az(t) = bearing  (mod 180°)`.
 ///
-/// The zero-crossings of this function correspond exactly to crossing events
-/// for the given bearing.
+/// Its zero-crossings are the crossing events of the given bearing and of the
+/// opposite one.
 fn make_az_bearing_sin_fn<'a, T: AzimuthProvider>(
     target: &'a T,
     site: &'a Geodetic<ECEF>,
@@ -196,6 +196,15 @@ pub fn azimuth_crossings<T: AzimuthProvider>(
     let step = scan_step_for(target, &opts);
 
     let mut raw = intervals::find_crossings(window, step, &f, Radians::new(0.0));
+    // sin(az - bearing) also vanishes at the opposite bearing
+    raw.retain(|t| {
+        let az = target.azimuth_at_with_policy(
+            observer,
+            *t,
+            crate::astro::apparent::CorrectionPolicy::APPARENT,
+        );
+        (az - bearing_rad).cos() > 0.0
+    });
     let labeled = intervals::label_crossings(&mut raw, &f, Radians::new(0.0));
 
     labeled
-- 
2.43.0


From ef52965303c90283c492acd1cc7c9254bb5c32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 027/104] fix: a crossing that falls exactly on a scan sample
 was missed

---
 src/event/search/intervals.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/event/search/intervals.rs b/src/event/search/intervals.rs
index d0881ca..9c47a02 100644
--- a/src/event/search/intervals.rs
+++ b/src/event/search/intervals.rs
@@ -103,7 +103,8 @@ where
         };
         let next_v = g(next_t);
 
-        if (prev < zero && next_v > zero) || (prev > zero && next_v < zero) {
+        // a sample exactly on the threshold counts as not above it
+        if (prev > zero) != (next_v > zero) {
             if let Some(root_t) =
                 root_finding::brent_with_values(Interval::new(t, next_t), prev, next_v, g)
             {
@@ -159,12 +160,11 @@ where
         };
         let next_v = g(next_t);
 
-        let direction = if prev < zero && next_v > zero {
-            Some(1)
-        } else if prev > zero && next_v < zero {
-            Some(-1)
-        } else {
-            None
+        // a sample exactly on the threshold counts as not above it
+        let direction = match (prev > zero, next_v > zero) {
+            (false, true) => Some(1),
+            (true, false) => Some(-1),
+            _ => None,
         };
 
         if let Some(direction) = direction {
-- 
2.43.0


From 9d52b7c71d975a638f932d82412c584dbfa51b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 028/104] fix: azimuth bands narrower than the motion in one
 scan step were missed

---
 src/event/azimuth/events.rs | 79 ++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 27 deletions(-)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index 9746494..45f20f3 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -285,6 +285,9 @@ pub fn azimuth_extrema<T: AzimuthProvider>(
 /// This function is `pub(crate)` and is the single implementation backing
 /// all [`AzimuthProvider::azimuth_periods`] impls.
 ///
+/// The window is cut at every passage of either bounding bearing; each piece is
+/// inside or outside as a whole.
+///
 /// ## Non-wrap range (`min ≤ max`)
 ///
 /// Uses the midpoint-cosine approach:
@@ -295,45 +298,67 @@ pub fn azimuth_extrema<T: AzimuthProvider>(
 /// ## Wrap-around range (`min > max`)
 ///
 /// The arc `[min, 360°) ∪ [0°, max]` equals the complement of the arc
-/// `[max, min]` (non-wrapping).  We compute the non-wrapping complement and
-/// take its complement within the window.
+/// `[max, min]` (non-wrapping).
 pub(crate) fn azimuth_range_periods<T: AzimuthProvider>(
     target: &T,
     query: &AzimuthQuery,
 ) -> Vec<Interval<ModifiedJulianDate>> {
     let step = scan_step_for(target, &query.opts);
-
-    if query.min_azimuth <= query.max_azimuth {
-        // ── Non-wrap arc [min, max] ────────────────────────────────────────
-        let mid = ((query.min_azimuth + query.max_azimuth) * 0.5).to::<Radian>();
-        let half_width = ((query.max_azimuth - query.min_azimuth) * 0.5).to::<Radian>();
-        let cos_hw = half_width.cos();
-
-        let f = make_az_cosine_fn(
-            target,
-            &query.observer,
-            mid,
-            cos_hw,
-            query.correction_policy,
-        );
-        intervals::above_threshold_periods(query.window, step, &f, Radians::new(0.0))
+    let (lo, hi, wraps) = if query.min_azimuth <= query.max_azimuth {
+        (query.min_azimuth, query.max_azimuth, false)
     } else {
-        // ── Wrap-around arc [min, 360°) ∪ [0°, max] ──────────────────────
-        // Complement arc is [max, min] (non-wrapping).
-        let mid = ((query.max_azimuth + query.min_azimuth) * 0.5).to::<Radian>();
-        let half_width = ((query.min_azimuth - query.max_azimuth) * 0.5).to::<Radian>();
-        let cos_hw = half_width.cos();
+        (query.max_azimuth, query.min_azimuth, true)
+    };
 
-        let f = make_az_cosine_fn(
+    let mid = ((lo + hi) * 0.5).to::<Radian>();
+    let cos_hw = ((hi - lo) * 0.5).to::<Radian>().cos();
+    let f = make_az_cosine_fn(
+        target,
+        &query.observer,
+        mid,
+        cos_hw,
+        query.correction_policy,
+    );
+    let in_band = |t: ModifiedJulianDate| (f(t) > Radians::new(0.0)) != wraps;
+
+    // The band can only be entered or left at one of its two bearings. Scanning for
+    // those, rather than for the band itself, does not depend on its width.
+    let mut edges = vec![query.window.start];
+    for bearing in [lo, hi] {
+        let g = make_az_bearing_sin_fn(
             target,
             &query.observer,
-            mid,
-            cos_hw,
+            bearing.to::<Radian>(),
             query.correction_policy,
         );
-        let outside = intervals::above_threshold_periods(query.window, step, &f, Radians::new(0.0));
-        complement_within(query.window, &outside)
+        edges.extend(intervals::find_crossings(
+            query.window,
+            step,
+            &g,
+            Radians::new(0.0),
+        ));
+    }
+    edges.push(query.window.end);
+    edges.sort_by(|a, b| a.partial_cmp(b).unwrap());
+
+    let mut periods: Vec<Interval<ModifiedJulianDate>> = Vec::new();
+    let mut previous_inside = false;
+    for pair in edges.windows(2) {
+        let (start, end) = (pair[0], pair[1]);
+        if start >= end {
+            continue;
+        }
+        let inside = in_band(start + (end - start) * 0.5);
+        if inside && previous_inside {
+            if let Some(last) = periods.last_mut() {
+                last.end = end;
+            }
+        } else if inside {
+            periods.push(Interval::new(start, end));
+        }
+        previous_inside = inside;
     }
+    periods
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 5de1c8e28d6bc72f4ab0317c29904b7bbaf60a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 029/104] fix: azimuth searches of the Sun, Moon and planets
 stepped over turning points

---
 src/event/azimuth/provider.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/event/azimuth/provider.rs b/src/event/azimuth/provider.rs
index fd74138..2bc8d10 100644
--- a/src/event/azimuth/provider.rs
+++ b/src/event/azimuth/provider.rs
@@ -175,8 +175,9 @@ pub trait AzimuthProvider {
 
     /// Hint for the scan step to use when searching for azimuth events.
     ///
-    /// Returns `None` to use the default (10 minutes). Bodies with slower
-    /// apparent motion (like the Moon) can return a larger step.
+    /// Returns `None` to use the default (10 minutes). A larger step
+    /// is only safe for a body whose bearing cannot turn back, or move by more
+    /// than half a circle, within one step.
     ///
     /// # Returns
     ///
@@ -254,10 +255,6 @@ impl AzimuthProvider for solar_system::Sun {
         }
         events::azimuth_range_periods(self, query)
     }
-
-    fn scan_step_hint(&self) -> Option<Days> {
-        Some(Hours::new(2.0).to::<Day>())
-    }
 }
 
 /// **Moon**, delegates to `event::lunar::moon_azimuth_rad`.
@@ -272,11 +269,6 @@ impl AzimuthProvider for solar_system::Moon {
         }
         events::azimuth_range_periods(self, query)
     }
-
-    fn scan_step_hint(&self) -> Option<Days> {
-        // Moon moves slower; 2-hour steps are sufficient.
-        Some(Hours::new(2.0).to::<Day>())
-    }
 }
 
 /// **Star**, extracts RA/Dec, delegates to [`direction::ICRS`].
@@ -371,10 +363,6 @@ macro_rules! impl_azimuth_provider_vsop87 {
                     }
                     events::azimuth_range_periods(self, query)
                 }
-
-                fn scan_step_hint(&self) -> Option<Days> {
-                    Some(Hours::new(2.0).to::<Day>())
-                }
             }
         )+
     };
-- 
2.43.0


From e5bb0178db4724310eeaadd1d78e8913de81a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 030/104] fix: azimuth extrema unwrapped near-zenith passages
 the wrong way round

---
 src/event/azimuth/events.rs | 59 ++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index 45f20f3..fbd3f34 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -57,6 +57,9 @@ use crate::time::{complement_within, Interval, ModifiedJulianDate};
 // Helpers
 // ---------------------------------------------------------------------------
 
+/// Shortest step, when following the azimuth through a fast swing.
+const MIN_UNWRAP_STEP: Days = Days::new(1e-6);
+
 /// Choose the best scan step for the target.
 fn scan_step_for<T: AzimuthProvider>(target: &T, _opts: &SearchOpts) -> Days {
     target.scan_step_hint().unwrap_or(DEFAULT_SCAN_STEP)
@@ -105,35 +108,49 @@ fn make_az_cosine_fn<'a, T: AzimuthProvider>(
 /// Build an **unwrapped** (continuous) azimuth closure using a `Cell`-based
 /// accumulator.
 ///
-/// Each call adjusts a running ±2π offset whenever the raw azimuth value
-/// jumps by more than π since the last sample.  This produces a smooth,
-/// monotone function safe for `find_extrema_tol`.
-///
-/// **Important:** this closure is stateful and must be evaluated with
-/// monotonically increasing `t`, as guaranteed by all `math_core` scan loops.
+/// Each call follows the azimuth from the previously evaluated instant to the
+/// requested one.  This produces a smooth function safe for
+/// `find_extrema_tol`.
 fn make_az_unwrapped_fn<'a, T: AzimuthProvider>(
     target: &'a T,
     site: Geodetic<ECEF>,
     policy: crate::astro::apparent::CorrectionPolicy,
 ) -> impl Fn(ModifiedJulianDate) -> Radians + 'a {
-    let prev_raw: Cell<f64> = Cell::new(f64::NAN);
-    let offset: Cell<f64> = Cell::new(0.0f64);
+    let azimuth = move |t: ModifiedJulianDate| target.azimuth_at_with_policy(&site, t, policy);
+    let previous: Cell<Option<(ModifiedJulianDate, Radians, Radians)>> = Cell::new(None);
     move |t: ModifiedJulianDate| {
-        let raw = target.azimuth_at_with_policy(&site, t, policy).value(); // [0, 2π)
-        let p = prev_raw.get();
-        if !p.is_nan() {
-            let diff = raw - p;
-            if diff > std::f64::consts::PI {
-                // Apparent upward jump > π → real motion was downward (0°→360° crossing)
-                offset.set(offset.get() - std::f64::consts::TAU);
-            } else if diff < -std::f64::consts::PI {
-                // Apparent downward jump > π → real motion was upward (360°→0° crossing)
-                offset.set(offset.get() + std::f64::consts::TAU);
+        let raw = azimuth(t); // [0, 2π)
+        let unwrapped = match previous.get() {
+            None => raw,
+            Some((t_prev, raw_prev, unwrapped_prev)) => {
+                let reached = unwrapped_prev + azimuth_swing(&azimuth, t_prev, raw_prev, t, raw);
+                let turns = ((reached - raw).value() / std::f64::consts::TAU).round();
+                raw + Radians::new(turns * std::f64::consts::TAU)
             }
-        }
-        prev_raw.set(raw);
-        Radians::new(raw + offset.get())
+        };
+        previous.set(Some((t, raw, unwrapped)));
+        unwrapped
+    }
+}
+
+/// Signed azimuth change from `(t0, az0)` to `(t1, az1)`.
+///
+/// Close to the zenith the azimuth can swing by about half a circle within one
+/// scan step; such a step is halved until each part has an unambiguous sense.
+fn azimuth_swing(
+    azimuth: &impl Fn(ModifiedJulianDate) -> Radians,
+    t0: ModifiedJulianDate,
+    az0: Radians,
+    t1: ModifiedJulianDate,
+    az1: Radians,
+) -> Radians {
+    let change = (az1 - az0).wrap_signed();
+    if change.value().abs() <= std::f64::consts::FRAC_PI_2 || (t1 - t0).abs() < MIN_UNWRAP_STEP {
+        return change;
     }
+    let mid = t0 + (t1 - t0) * 0.5;
+    let az_mid = azimuth(mid);
+    azimuth_swing(azimuth, t0, az0, mid, az_mid) + azimuth_swing(azimuth, mid, az_mid, t1, az1)
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 57f4f994225534987062cd51e001bd8412a99baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 031/104] fix: an azimuth band covering the full circle could
 be split or come out empty

---
 src/event/azimuth/events.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index fbd3f34..11bae53 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -326,6 +326,10 @@ pub(crate) fn azimuth_range_periods<T: AzimuthProvider>(
     } else {
         (query.max_azimuth, query.min_azimuth, true)
     };
+    if hi - lo >= Degrees::FULL_TURN {
+        // Every bearing is inside a full circle
+        return if wraps { Vec::new() } else { vec![query.window] };
+    }
 
     let mid = ((lo + hi) * 0.5).to::<Radian>();
     let cos_hw = ((hi - lo) * 0.5).to::<Radian>().cos();
-- 
2.43.0


From 97cbda2f954751b0509fa3fae845fbe9e450a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 032/104] fix: rejected observation row leaves the normal
 equations untouched

---
 src/pod/estimation/wls.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pod/estimation/wls.rs b/src/pod/estimation/wls.rs
index b884caa..f6ffd8b 100644
--- a/src/pod/estimation/wls.rs
+++ b/src/pod/estimation/wls.rs
@@ -122,7 +122,7 @@ impl NormalEquations {
                 "residual must be finite (got {residual})"
             )));
         }
-        let w = 1.0 / (sigma * sigma);
+        // Check the whole row first: a rejected row must leave no trace.
         for &(i, hi) in partials {
             if i >= self.n {
                 return Err(WlsSolverError::InvalidIndex {
@@ -135,6 +135,9 @@ impl NormalEquations {
                     "partial at index {i} must be finite (got {hi})"
                 )));
             }
+        }
+        let w = 1.0 / (sigma * sigma);
+        for &(i, hi) in partials {
             // Accumulate into the upper triangle; symmetrise at solve time.
             self.b[(i, 0)] += w * hi * residual;
             for &(j, hj) in partials {
-- 
2.43.0


From e4313c2d8fffd7dabc4eaea696d1ca8e6a9adeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 033/104] fix: Gauss-Newton converges on observations it fits
 perfectly

---
 src/pod/estimation/nonlinear.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pod/estimation/nonlinear.rs b/src/pod/estimation/nonlinear.rs
index 3aa5777..2856df5 100644
--- a/src/pod/estimation/nonlinear.rs
+++ b/src/pod/estimation/nonlinear.rs
@@ -146,8 +146,10 @@ where
             params[i] += dp;
         }
         let chi2 = result.reduced_chi2();
-        let chi2_rel = if last_chi2.is_finite() && last_chi2 > 0.0 {
-            (chi2 - last_chi2).abs() / last_chi2
+        // A perfect fit has χ² at rounding level (or exactly zero), where a
+        // purely relative change is meaningless; floor the reference.
+        let chi2_rel = if last_chi2.is_finite() {
+            (chi2 - last_chi2).abs() / last_chi2.max(f64::EPSILON)
         } else {
             f64::INFINITY
         };
-- 
2.43.0


From fc54487035b00973e27873dcc82b1022e9b70d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 034/104] fix: thrust direction of extreme magnitude is
 normalised

---
 src/pod/force/thrust.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pod/force/thrust.rs b/src/pod/force/thrust.rs
index 9148271..885543d 100644
--- a/src/pod/force/thrust.rs
+++ b/src/pod/force/thrust.rs
@@ -92,6 +92,10 @@ impl ThrustArc {
         if !x.is_finite() || !y.is_finite() || !z.is_finite() {
             return Err(ManeuverError::InvalidDirection(direction));
         }
+        // Scale by the largest component so the squares can neither overflow
+        // nor underflow.
+        let scale = x.abs().max(y.abs()).max(z.abs());
+        let (x, y, z) = (x / scale, y / scale, z / scale);
         let mag = (x * x + y * y + z * z).sqrt();
         // Reject zero, negative, and NaN magnitudes in one expression.
         #[allow(clippy::neg_cmp_op_on_partial_ord)]
-- 
2.43.0


From c2f893fcc828e5ea97231a719a2ba1ce85603ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 035/104] fix: OEM states before a covariance or manoeuvre
 block were lost

---
 src/formats/ccsds/oem.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/formats/ccsds/oem.rs b/src/formats/ccsds/oem.rs
index d5aa861..0d10cb9 100644
--- a/src/formats/ccsds/oem.rs
+++ b/src/formats/ccsds/oem.rs
@@ -218,7 +218,7 @@ pub fn read_oem<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
         Header,
         Meta(MetaBuilder),
         Data(OemSegment),
-        SkipBlock,
+        SkipBlock(OemSegment),
     }
 
     #[derive(Default)]
@@ -304,31 +304,28 @@ pub fn read_oem<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
                     continue;
                 }
                 if line == "COVARIANCE_START" || line == "MAN_START" {
-                    state = State::SkipBlock;
+                    let open = OemSegment {
+                        metadata: seg.metadata.clone(),
+                        states: std::mem::take(&mut seg.states),
+                    };
+                    state = State::SkipBlock(open);
                     continue;
                 }
                 seg.states.push(parse_data_line(line, lineno)?);
             }
-            State::SkipBlock => {
+            State::SkipBlock(seg) => {
                 if line == "COVARIANCE_STOP" || line == "MAN_STOP" {
-                    // Re-enter the most recent Data segment.
-                    if let Some(last) = segments.last_mut() {
-                        let resumed = std::mem::replace(
-                            last,
-                            OemSegment {
-                                metadata: last.metadata.clone(),
-                                states: Vec::new(),
-                            },
-                        );
-                        state = State::Data(resumed);
-                    } else {
-                        state = State::Header;
-                    }
+                    // Resume the segment the block belongs to.
+                    let resumed = OemSegment {
+                        metadata: seg.metadata.clone(),
+                        states: std::mem::take(&mut seg.states),
+                    };
+                    state = State::Data(resumed);
                 }
             }
         }
     }
-    if let State::Data(seg) = state {
+    if let State::Data(seg) | State::SkipBlock(seg) = state {
         segments.push(seg);
     }
     if segments.is_empty() {
-- 
2.43.0


From bd1e9834f0ecb5ff397a512915f8d281ce0ebf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 036/104] fix: OEM epochs that are no civil date were read as
 another one

---
 src/formats/ccsds/oem.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/formats/ccsds/oem.rs b/src/formats/ccsds/oem.rs
index 0d10cb9..3acc90b 100644
--- a/src/formats/ccsds/oem.rs
+++ b/src/formats/ccsds/oem.rs
@@ -403,6 +403,11 @@ fn iso8601_to_jd(s: &str) -> Option<f64> {
     let hour: u32 = time_parts.next()?.parse().ok()?;
     let minute: u32 = time_parts.next()?.parse().ok()?;
     let second: f64 = time_parts.next()?.parse().ok()?;
+    // Only civil instants name an epoch (a 60th second is a leap second).
+    chrono::NaiveDate::from_ymd_opt(year, month, day)?;
+    if hour >= 24 || minute >= 60 || !(0.0..61.0).contains(&second) {
+        return None;
+    }
 
     // Proleptic Gregorian calendar → JDN at 0h UT.
     let m = month as i64;
-- 
2.43.0


From 55e49461a19b4f917d16e9749ad07ac9b36bd0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 037/104] fix: non-finite states were accepted from OEM XML

---
 src/formats/ccsds/oem.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/formats/ccsds/oem.rs b/src/formats/ccsds/oem.rs
index 3acc90b..a3e9a54 100644
--- a/src/formats/ccsds/oem.rs
+++ b/src/formats/ccsds/oem.rs
@@ -606,6 +606,7 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
     let mut seg: Option<SegBuilder> = None;
     let mut cur_tag: Option<String> = None;
     let mut buf = Vec::new();
+    let finite = |s: &str| s.parse::<f64>().ok().filter(|v| v.is_finite());
 
     loop {
         match rdr
@@ -703,12 +704,12 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
                     if let Some(b) = s.cur.as_mut() {
                         match tag {
                             "EPOCH" => b.epoch = iso8601_to_jd(&txt),
-                            "X" => b.x = txt.parse().ok(),
-                            "Y" => b.y = txt.parse().ok(),
-                            "Z" => b.z = txt.parse().ok(),
-                            "X_DOT" => b.vx = txt.parse().ok(),
-                            "Y_DOT" => b.vy = txt.parse().ok(),
-                            "Z_DOT" => b.vz = txt.parse().ok(),
+                            "X" => b.x = finite(&txt),
+                            "Y" => b.y = finite(&txt),
+                            "Z" => b.z = finite(&txt),
+                            "X_DOT" => b.vx = finite(&txt),
+                            "Y_DOT" => b.vy = finite(&txt),
+                            "Z_DOT" => b.vz = finite(&txt),
                             _ => {}
                         }
                     } else {
-- 
2.43.0


From 20a2b837f647648563d6858858a303923cb05cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 038/104] fix: OEM XML names with escaped characters were cut
 short

---
 src/formats/ccsds/oem.rs | 89 +++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 42 deletions(-)

diff --git a/src/formats/ccsds/oem.rs b/src/formats/ccsds/oem.rs
index a3e9a54..bbfe3b3 100644
--- a/src/formats/ccsds/oem.rs
+++ b/src/formats/ccsds/oem.rs
@@ -576,7 +576,6 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
     r.read_to_string(&mut text)
         .map_err(|e| FormatError::Format(format!("read_oem_xml: io: {e}")))?;
     let mut rdr = Reader::from_str(&text);
-    rdr.config_mut().trim_text(true);
 
     #[derive(Default)]
     struct StateBuilder {
@@ -605,6 +604,7 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
     let mut segments: Vec<OemSegment> = Vec::new();
     let mut seg: Option<SegBuilder> = None;
     let mut cur_tag: Option<String> = None;
+    let mut raw = String::new();
     let mut buf = Vec::new();
     let finite = |s: &str| s.parse::<f64>().ok().filter(|v| v.is_finite());
 
@@ -634,8 +634,43 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
                     _ => {}
                 }
                 cur_tag = Some(local);
+                raw.clear();
             }
             Event::End(e) => {
+                if let Some(tag) = cur_tag.take() {
+                    let txt = unescape(raw.trim())
+                        .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?
+                        .to_string();
+                    if let Some(s) = seg.as_mut() {
+                        if let Some(b) = s.cur.as_mut() {
+                            match tag.as_str() {
+                                "EPOCH" => b.epoch = iso8601_to_jd(&txt),
+                                "X" => b.x = finite(&txt),
+                                "Y" => b.y = finite(&txt),
+                                "Z" => b.z = finite(&txt),
+                                "X_DOT" => b.vx = finite(&txt),
+                                "Y_DOT" => b.vy = finite(&txt),
+                                "Z_DOT" => b.vz = finite(&txt),
+                                _ => {}
+                            }
+                        } else {
+                            match tag.as_str() {
+                                "OBJECT_ID" => s.object_id = Some(txt),
+                                "OBJECT_NAME" => s.object_name = Some(txt),
+                                "REF_FRAME" => s.ref_frame = Some(txt),
+                                "TIME_SYSTEM" => s.time_system = Some(txt),
+                                "CENTER_NAME" => s.center_name = Some(txt),
+                                _ => {}
+                            }
+                        }
+                    } else {
+                        match tag.as_str() {
+                            "CREATION_DATE" => creation_date = txt,
+                            "ORIGINATOR" => originator = txt,
+                            _ => {}
+                        }
+                    }
+                }
                 let name = String::from_utf8_lossy(e.name().as_ref()).to_string();
                 let local = name.rsplit(':').next().unwrap_or(&name).to_string();
                 match local.as_str() {
@@ -687,48 +722,18 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
                     }
                     _ => {}
                 }
-                cur_tag = None;
             }
-            Event::Text(t) => {
-                let txt =
-                    unescape(&t.xml10_content().map_err(|e| {
-                        FormatError::Format(format!("read_oem_xml: xml text: {e}"))
-                    })?)
-                    .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?
-                    .to_string();
-                let tag = match &cur_tag {
-                    Some(t) => t.as_str(),
-                    None => continue,
-                };
-                if let Some(s) = seg.as_mut() {
-                    if let Some(b) = s.cur.as_mut() {
-                        match tag {
-                            "EPOCH" => b.epoch = iso8601_to_jd(&txt),
-                            "X" => b.x = finite(&txt),
-                            "Y" => b.y = finite(&txt),
-                            "Z" => b.z = finite(&txt),
-                            "X_DOT" => b.vx = finite(&txt),
-                            "Y_DOT" => b.vy = finite(&txt),
-                            "Z_DOT" => b.vz = finite(&txt),
-                            _ => {}
-                        }
-                    } else {
-                        match tag {
-                            "OBJECT_ID" => s.object_id = Some(txt),
-                            "OBJECT_NAME" => s.object_name = Some(txt),
-                            "REF_FRAME" => s.ref_frame = Some(txt),
-                            "TIME_SYSTEM" => s.time_system = Some(txt),
-                            "CENTER_NAME" => s.center_name = Some(txt),
-                            _ => {}
-                        }
-                    }
-                } else {
-                    match tag {
-                        "CREATION_DATE" => creation_date = txt,
-                        "ORIGINATOR" => originator = txt,
-                        _ => {}
-                    }
-                }
+            // Entity references arrive as events of their own: collect the
+            // whole text of an element and resolve it when the element ends.
+            Event::Text(t) => raw.push_str(
+                &t.xml10_content()
+                    .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?,
+            ),
+            Event::GeneralRef(r) => {
+                let name = r
+                    .xml10_content()
+                    .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?;
+                raw.push_str(&format!("&{name};"));
             }
             _ => {}
         }
-- 
2.43.0


From 8ceb7a705e138a35855122d52e8bbabe1c1e5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 039/104] fix: OEM epochs could be printed with a 60th second

---
 src/formats/ccsds/oem.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/formats/ccsds/oem.rs b/src/formats/ccsds/oem.rs
index bbfe3b3..556d1e7 100644
--- a/src/formats/ccsds/oem.rs
+++ b/src/formats/ccsds/oem.rs
@@ -126,8 +126,15 @@ pub fn write_oem<W: Write>(
 /// Conversion is "calendar date in proleptic Gregorian, fractional seconds";
 /// no leap-second handling — the caller is responsible for the time system.
 fn jd_to_iso8601(jd: f64) -> String {
-    let jd_int = (jd + 0.5).floor() as i64;
+    let mut jd_int = (jd + 0.5).floor() as i64;
     let frac = jd + 0.5 - jd_int as f64;
+    // Round to the printed resolution first, so that no field can reach 60
+    // seconds or 24 hours.
+    let mut micros = (frac * 86_400.0e6).round() as i64;
+    if micros >= 86_400_000_000 {
+        micros -= 86_400_000_000;
+        jd_int += 1;
+    }
 
     let a = jd_int + 32_044;
     let b = (4 * a + 3) / 146_097;
@@ -139,10 +146,9 @@ fn jd_to_iso8601(jd: f64) -> String {
     let month = (m + 3 - 12 * (m / 10)) as u32;
     let year = (100 * b + d - 4_800 + (m / 10)) as i32;
 
-    let total_seconds = frac * 86_400.0;
-    let hours = (total_seconds / 3600.0).floor() as u32 % 24;
-    let mins = ((total_seconds % 3600.0) / 60.0).floor() as u32;
-    let secs = total_seconds % 60.0;
+    let hours = micros / 3_600_000_000;
+    let mins = micros / 60_000_000 % 60;
+    let secs = (micros % 60_000_000) as f64 * 1e-6;
 
     format!(
         "{:04}-{:02}-{:02}T{:02}:{:02}:{:09.6}",
-- 
2.43.0


From e1f93ee828612e11c8e9a91e8e675ae0880c0a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 040/104] fix: SP3 seconds that are no number were read as zero

---
 src/formats/igs/sp3.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/formats/igs/sp3.rs b/src/formats/igs/sp3.rs
index 0755375..da1be7e 100644
--- a/src/formats/igs/sp3.rs
+++ b/src/formats/igs/sp3.rs
@@ -31,7 +31,7 @@
 use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::GCRS;
-use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
+use chrono::{DateTime, NaiveDate, TimeDelta, Utc as ChronoUtc};
 use qtty::time::Microseconds;
 use qtty::unit::Kilometer;
 
@@ -116,10 +116,10 @@ fn civil_to_time_utc(
     second: f64,
     line: usize,
 ) -> Result<Time<UTC>, Sp3Error> {
-    let second_int = second as u32;
-    let nanos = ((second - second_int as f64) * 1e9).round() as u32;
     let naive = NaiveDate::from_ymd_opt(year, month, day)
-        .and_then(|d| d.and_hms_nano_opt(hour, minute, second_int, nanos))
+        .and_then(|d| d.and_hms_opt(hour, minute, 0))
+        .filter(|_| (0.0..60.0).contains(&second))
+        .map(|t| t + TimeDelta::nanoseconds((second * 1e9).round() as i64))
         .ok_or_else(|| Sp3Error::Record {
             line,
             message: "invalid epoch date/time".into(),
-- 
2.43.0


From e7138857f171e5d66e52fa7b29b96519822642ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 041/104] fix: SP3 epochs could be printed with a 60th second

---
 src/formats/igs/sp3.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/formats/igs/sp3.rs b/src/formats/igs/sp3.rs
index da1be7e..d6c41e8 100644
--- a/src/formats/igs/sp3.rs
+++ b/src/formats/igs/sp3.rs
@@ -254,15 +254,20 @@ where
 /// Write an SP3 record. The header lines are emitted verbatim, then each
 /// epoch as `* YYYY MM DD HH MM SS.SS...` followed by `PXXX X Y Z CLK` lines.
 pub fn write_sp3<W: Write>(w: &mut W, rec: &Sp3Record) -> Result<(), Sp3Error> {
-    use chrono::{Datelike, Timelike};
+    use chrono::{Datelike, SubsecRound, Timelike};
     for h in &rec.header {
         writeln!(w, "{h}")?;
     }
     for e in &rec.epochs {
-        let dt = e.time.try_to_chrono().map_err(|err| Sp3Error::Record {
-            line: 0,
-            message: format!("epoch to chrono: {err}"),
-        })?;
+        let dt = e
+            .time
+            .try_to_chrono()
+            .map_err(|err| Sp3Error::Record {
+                line: 0,
+                message: format!("epoch to chrono: {err}"),
+            })?
+            // to the 1e-8 s printed below, so that no second reads as 60
+            .round_subsecs(8);
         let second = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
         writeln!(
             w,
-- 
2.43.0


From 2029220695eb5d5e6fcb64633bdc548e68cf0bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 042/104] fix: CPF epochs that are no instant were read as
 another one or crashed

---
 src/formats/ilrs/cpf.rs | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/src/formats/ilrs/cpf.rs b/src/formats/ilrs/cpf.rs
index 812635b..4de20a1 100644
--- a/src/formats/ilrs/cpf.rs
+++ b/src/formats/ilrs/cpf.rs
@@ -38,7 +38,7 @@ use super::{FileLocation, FormatError, ParseMode};
 use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::ITRF;
-use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
+use chrono::{DateTime, NaiveDate, TimeDelta, Utc as ChronoUtc};
 use qtty::unit::Kilometer;
 use qtty::Day;
 use std::fs;
@@ -456,31 +456,16 @@ fn parse_cpf_impl(
 
 /// Build a `Time<UTC>` from an integer MJD and fractional seconds-of-day.
 fn build_epoch_from_mjd_sod(mjd_int: i64, sod: f64) -> Result<Time<UTC>, FormatError> {
-    // Convert MJD to calendar date, then to chrono, then add SOD.
-    // MJD 0 = 1858-11-17. MJD → Julian Day: JD = MJD + 2400000.5
-    // Use Julian Day Number arithmetic to get year/month/day.
-    let jd_whole = mjd_int + 2_400_001; // integer JD at noon of MJD day
-                                        // Algorithm from USNO (Fliegel & Van Flandern, 1968):
-    let l = jd_whole + 68_569;
-    let n = (4 * l) / 146_097;
-    let l2 = l - (146_097 * n + 3) / 4;
-    let i = (4_000 * (l2 + 1)) / 1_461_001;
-    let l3 = l2 - (1_461 * i) / 4 + 31;
-    let j = (80 * l3) / 2_447;
-    let day = l3 - (2_447 * j) / 80;
-    let l4 = j / 11;
-    let month = j + 2 - 12 * l4;
-    let year = 100 * (n - 49) + i + l4;
-
-    let sod_int = sod as u32;
-    let sod_nanos = ((sod - sod_int as f64) * 1e9).round() as u32;
-    let hour = sod_int / 3_600;
-    let minute = (sod_int % 3_600) / 60;
-    let second = sod_int % 60;
-
-    let naive = NaiveDate::from_ymd_opt(year as i32, month as u32, day as u32)
-        .and_then(|d| d.and_hms_nano_opt(hour, minute, second, sod_nanos))
-        .ok_or_else(|| FormatError::Format(format!("CPF 10: invalid date from MJD {mjd_int}")))?;
+    // Convert MJD to calendar date (MJD 0 = 1858-11-17), then add SOD.
+    let naive = NaiveDate::from_ymd_opt(1858, 11, 17)
+        .zip(TimeDelta::try_days(mjd_int))
+        .and_then(|(d, days)| d.checked_add_signed(days))
+        .and_then(|d| d.and_hms_opt(0, 0, 0))
+        .filter(|_| (0.0..86_400.0).contains(&sod))
+        .and_then(|t| t.checked_add_signed(TimeDelta::nanoseconds((sod * 1e9).round() as i64)))
+        .ok_or_else(|| {
+            FormatError::Format(format!("CPF 10: invalid MJD {mjd_int} or SOD {sod}"))
+        })?;
     let dt: DateTime<ChronoUtc> = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
     Time::<UTC>::try_from_chrono(dt)
         .map_err(|e| FormatError::Format(format!("CPF 10: UTC conversion: {e}")))
-- 
2.43.0


From 2b229181e7e1c204d119fbb9a377f74119e52bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 043/104] fix: a CPF epoch out of range ended permissive
 reading

---
 src/formats/ilrs/cpf.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/formats/ilrs/cpf.rs b/src/formats/ilrs/cpf.rs
index 4de20a1..40b0c97 100644
--- a/src/formats/ilrs/cpf.rs
+++ b/src/formats/ilrs/cpf.rs
@@ -434,12 +434,15 @@ fn parse_cpf_impl(
                         }
                     };
 
-                let mjd = ModifiedJulianDate::<UTC>::try_new(Day::new(mjd_i as f64))
-                    .map_err(|_| FormatError::Format(format!("CPF 10: invalid MJD {mjd_i}")))?;
-                let _ = (mjd, sod); // mjd parsed for validation; epoch built below
-
-                // Typed record: convert metres to km, compute epoch.
-                let epoch = build_epoch_from_mjd_sod(mjd_i, sod)?;
+                let epoch = ModifiedJulianDate::<UTC>::try_new(Day::new(mjd_i as f64))
+                    .map_err(|_| FormatError::Format(format!("CPF 10: invalid MJD {mjd_i}")))
+                    .and_then(|_| build_epoch_from_mjd_sod(mjd_i, sod));
+                let epoch = match epoch {
+                    Ok(epoch) => epoch,
+                    Err(err) if mode == ParseMode::Strict => return Err(err),
+                    Err(_) => continue,
+                };
+                // Typed record: convert metres to km.
                 out.ephemeris.entries.push(CpfEphemerisEntry {
                     epoch,
                     position: CpfCartesian::new(x_m / 1_000.0, y_m / 1_000.0, z_m / 1_000.0),
-- 
2.43.0


From 885bad9bfb7d206f8ea7ac91e3dfc3348b15219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 044/104] fix: CPF epochs could be written as second 86400 of a
 day

---
 src/formats/ilrs/cpf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/formats/ilrs/cpf.rs b/src/formats/ilrs/cpf.rs
index 40b0c97..3165e61 100644
--- a/src/formats/ilrs/cpf.rs
+++ b/src/formats/ilrs/cpf.rs
@@ -318,10 +318,12 @@ pub fn write_cpf<W: Write>(f: &CpfFile, w: &mut W) -> Result<(), FormatError> {
 /// Decompose a UTC epoch into the `(integer MJD, seconds-of-day)`
 /// pair used by CPF record 10.
 fn mjd_sod_from_epoch(epoch: Time<UTC>) -> (i64, f64) {
-    use chrono::Timelike;
+    use chrono::{SubsecRound, Timelike};
     let dt = epoch
         .try_to_chrono()
-        .expect("CPF UTC epoch must be representable in chrono");
+        .expect("CPF UTC epoch must be representable in chrono")
+        // to the 1e-3 s written, so that no seconds-of-day reads as 86400
+        .round_subsecs(3);
     let mjd_epoch =
         NaiveDate::from_ymd_opt(1858, 11, 17).expect("MJD epoch 1858-11-17 is a valid date");
     let mjd_int = dt.date_naive().signed_duration_since(mjd_epoch).num_days();
-- 
2.43.0


From 95ae1a86047a59fb6cf6b92874170de4710b45c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 045/104] fix: CRD normal points in the last nanosecond of a
 second had no epoch, or a made-up one

---
 src/formats/ilrs/crd.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/formats/ilrs/crd.rs b/src/formats/ilrs/crd.rs
index b9a0c4d..2b834a6 100644
--- a/src/formats/ilrs/crd.rs
+++ b/src/formats/ilrs/crd.rs
@@ -35,7 +35,7 @@
 //! - Pearlman, M. R., Noll, C. E., et al. (2019). The ILRS: Current status
 //!   and future prospects. Journal of Geodesy, 93, 2161–2180.
 use super::{FileLocation, FormatError, ParseMode};
-use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
+use chrono::{DateTime, NaiveDate, TimeDelta, Utc as ChronoUtc};
 use qtty::length::Meters;
 use qtty::time::Seconds;
 use std::fs;
@@ -385,13 +385,10 @@ fn parse_crd_impl(
                     // Build epoch directly from H4 date + SOD components to
                     // avoid floating-point precision loss in the JD round-trip.
                     let epoch = h4_date.and_then(|(y, mo, d)| {
-                        let whole = sod as i64;
-                        let subsec_nanos = ((sod - whole as f64) * 1_000_000_000.0).round() as u32;
-                        let hh = (whole / 3600) as u32;
-                        let mm = ((whole % 3600) / 60) as u32;
-                        let ss = (whole % 60) as u32;
                         let naive = NaiveDate::from_ymd_opt(y, mo, d)
-                            .and_then(|nd| nd.and_hms_nano_opt(hh, mm, ss, subsec_nanos))?;
+                            .and_then(|nd| nd.and_hms_opt(0, 0, 0))
+                            .filter(|_| (0.0..86_400.0).contains(&sod))?
+                            + TimeDelta::nanoseconds((sod * 1e9).round() as i64);
                         let dt = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
                         Time::<UTC>::try_from_chrono(dt).ok()
                     });
-- 
2.43.0


From c13c695dd7a15a0e2b9cbb8b4bd68fe69b7b362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 046/104] fix: CRD normal points past midnight were dated a day
 early

---
 src/formats/ilrs/crd.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/formats/ilrs/crd.rs b/src/formats/ilrs/crd.rs
index 2b834a6..3df99ed 100644
--- a/src/formats/ilrs/crd.rs
+++ b/src/formats/ilrs/crd.rs
@@ -132,7 +132,8 @@ pub struct CrdTarget {
 pub struct NormalPoint {
     /// Seconds of day (UTC) at the observation epoch.
     pub seconds_of_day: Seconds,
-    /// UTC epoch (session date midnight + SOD). `None` if H4 was absent.
+    /// UTC epoch (session date midnight + SOD, on the next day once the session
+    /// has passed midnight). `None` if H4 was absent.
     pub epoch: Option<Time<UTC>>,
     /// Two-way time-of-flight in seconds.
     pub time_of_flight: Seconds,
@@ -260,6 +261,7 @@ fn parse_crd_impl(
     };
     let mut current_sys = String::from("std");
     let mut h4_date: Option<(i32, u32, u32)> = None;
+    let mut h4_start_sod = 0.0;
 
     for (line_idx, raw) in text.lines().enumerate() {
         let line_no = line_idx + 1;
@@ -329,6 +331,11 @@ fn parse_crd_impl(
                     if let Ok(t) = Time::<UTC>::try_from_chrono(dt) {
                         out.session_date = Some(t);
                         h4_date = Some((year, month, day));
+                        let mut hms = tokens.map_while(|s| s.parse::<f64>().ok());
+                        h4_start_sod = match (hms.next(), hms.next(), hms.next()) {
+                            (Some(h), Some(m), Some(s)) => h * 3600.0 + m * 60.0 + s,
+                            _ => 0.0,
+                        };
                     }
                 }
             }
@@ -388,6 +395,9 @@ fn parse_crd_impl(
                         let naive = NaiveDate::from_ymd_opt(y, mo, d)
                             .and_then(|nd| nd.and_hms_opt(0, 0, 0))
                             .filter(|_| (0.0..86_400.0).contains(&sod))?
+                            // Records carry no date: a session that passes midnight
+                            // goes on with the next day's seconds.
+                            + TimeDelta::days((sod + 43_200.0 < h4_start_sod) as i64)
                             + TimeDelta::nanoseconds((sod * 1e9).round() as i64);
                         let dt = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
                         Time::<UTC>::try_from_chrono(dt).ok()
-- 
2.43.0


From 4940d90065d3af51c0062bab1d64c3659e93f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 047/104] fix: an unreadable number ended permissive ORBEX
 reading

---
 src/formats/igs/orbex.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/formats/igs/orbex.rs b/src/formats/igs/orbex.rs
index 911515b..3ce9fec 100644
--- a/src/formats/igs/orbex.rs
+++ b/src/formats/igs/orbex.rs
@@ -205,6 +205,24 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
             continue;
         }
 
+        // When permissive, a record with an unreadable number is skipped.
+        let numbers = match section {
+            Section::Orb if parts.len() >= 7 => 6,
+            Section::Orb => 3,
+            Section::Clk => 1,
+            Section::Att => 4,
+            Section::None => 0,
+        };
+        if mode == ParseMode::Permissive
+            && parts
+                .iter()
+                .skip(1)
+                .take(numbers)
+                .any(|s| s.parse::<f64>().is_err())
+        {
+            continue;
+        }
+
         match section {
             Section::Orb => {
                 if parts.len() < 4 {
-- 
2.43.0


From 1ae3c9ca6370b5cb294af27f11decf1c03214127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 048/104] fix: ORBEX epochs that cannot be read were taken as
 2000-01-01 or day zero

---
 src/formats/igs/orbex.rs | 41 ++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/formats/igs/orbex.rs b/src/formats/igs/orbex.rs
index 3ce9fec..3636b7b 100644
--- a/src/formats/igs/orbex.rs
+++ b/src/formats/igs/orbex.rs
@@ -140,7 +140,7 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
     }
 
     let mut section = Section::None;
-    let mut current_epoch_mjd: f64 = 0.0;
+    let mut epoch: Option<f64> = None;
 
     for (lineno, result) in buf.lines().enumerate() {
         let line = result.map_err(FormatError::Io)?;
@@ -168,11 +168,16 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
         if line.starts_with("##") {
             let rest = line.trim_start_matches('#').trim();
             let parts: Vec<&str> = rest.split_whitespace().collect();
-            if parts.len() >= 3 {
-                let year: i32 = parts[0].parse().unwrap_or(2000);
-                let doy: u32 = parts[1].parse().unwrap_or(1);
-                let sod: f64 = parts[2].parse().unwrap_or(0.0);
-                current_epoch_mjd = orbex_epoch_to_mjd(year, doy, sod);
+            epoch = match parts[..] {
+                [year, doy, sod, ..] => orbex_epoch_to_mjd(year, doy, sod),
+                _ => None,
+            };
+            if epoch.is_none() && mode == ParseMode::Strict {
+                return Err(FormatError::located(
+                    "ORBEX §3",
+                    FileLocation::at_line(lineno),
+                    format!("cannot parse epoch: {line:?}"),
+                ));
             }
             continue;
         }
@@ -205,6 +210,20 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
             continue;
         }
 
+        // Records are dated by the epoch line before them.
+        let current_epoch_mjd = match (epoch, section) {
+            (Some(mjd), _) => mjd,
+            (None, Section::None) => continue,
+            (None, _) if mode == ParseMode::Strict => {
+                return Err(FormatError::located(
+                    "ORBEX §3",
+                    FileLocation::at_line(lineno),
+                    "record without an epoch",
+                ));
+            }
+            (None, _) => continue,
+        };
+
         // When permissive, a record with an unreadable number is skipped.
         let numbers = match section {
             Section::Orb if parts.len() >= 7 => 6,
@@ -316,14 +335,12 @@ fn parse_f64(s: &str, lineno: usize, what: &str, mode: ParseMode) -> Result<f64,
     })
 }
 
-fn orbex_epoch_to_mjd(year: i32, doy: u32, sod: f64) -> f64 {
-    let epoch = match chrono::NaiveDate::from_yo_opt(year, doy.max(1)) {
-        Some(d) => d,
-        None => return 0.0,
-    };
+fn orbex_epoch_to_mjd(year: &str, doy: &str, sod: &str) -> Option<f64> {
+    let epoch = chrono::NaiveDate::from_yo_opt(year.parse().ok()?, doy.parse().ok()?)?;
+    let sod: f64 = sod.parse().ok().filter(|s| (0.0..=86400.0).contains(s))?;
     let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
     let days = (epoch - mjd_ref).num_days() as f64;
-    days + sod / 86400.0
+    Some(days + sod / 86400.0)
 }
 
 #[cfg(test)]
-- 
2.43.0


From d06f910ee5645cd1a0af215736b72457c5cd8df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 049/104] fix: RINEX navigation fields that fill their columns
 could not be read

---
 src/formats/rinex/nav.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index 9411b30..6e8ec92 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -268,7 +268,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
 
         // ── TOC + clock terms ──────────────────────────────────────────────
         let rest = &l0[3..];
-        let toc_tokens: Vec<&str> = rest.split_whitespace().collect();
+        let toc_tokens: Vec<&str> = tokens(rest).collect();
         let header_result = (|| -> Result<(Time<UTC>, f64, f64, f64), FormatError> {
             if toc_tokens.len() < 9 {
                 return Err(FormatError::located(
@@ -444,8 +444,24 @@ fn parse_d(s: &str, line: usize, field: &str) -> Result<f64, FormatError> {
         })
 }
 
+/// Split a line into its numbers. The columns are as wide as a negative number
+/// (D19.12), so that such a number follows the one before it without a space.
+fn tokens(line: &str) -> impl Iterator<Item = &str> {
+    line.split_whitespace().flat_map(|mut rest| {
+        std::iter::from_fn(move || {
+            let b = rest.as_bytes();
+            let end = (1..b.len())
+                .find(|&i| b[i] == b'-' && (b[i - 1].is_ascii_digit() || b[i - 1] == b'.'))
+                .unwrap_or(b.len());
+            let (token, tail) = rest.split_at(end);
+            rest = tail;
+            Some(token).filter(|t| !t.is_empty())
+        })
+    })
+}
+
 fn collect_floats(line: &str, line_no: usize) -> Result<Vec<f64>, FormatError> {
-    line.split_whitespace()
+    tokens(line)
         .map(|s| parse_d(s, line_no, "body"))
         .collect()
 }
-- 
2.43.0


From 7ab77964e6a7e995cc8b130fb6fef068d6485b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 050/104] fix: permissive RINEX navigation reading crashed on a
 short record line

---
 src/formats/rinex/nav.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index 6e8ec92..b2110ce 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -333,7 +333,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         let parse_body = |idx: usize, expected: usize| -> Result<Vec<f64>, FormatError> {
             let (ln, text) = collected[i + idx];
             let vals = collect_floats(text, ln + 1)?;
-            if vals.len() < expected && mode == ParseMode::Strict {
+            if vals.len() < expected {
                 return Err(FormatError::located(
                     "RINEX 3.05 §6.5",
                     FileLocation::at_line(ln + 1),
-- 
2.43.0


From 7df91bfe5f3da69df228a190cb734a24bcaabc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 051/104] fix: RINEX navigation seconds that are no number were
 read as zero

---
 src/formats/rinex/nav.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index b2110ce..b555829 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -28,7 +28,7 @@
 //! - IS-GPS-200. (current revision). Navstar GPS Space Segment / Navigation
 //!   User Interfaces.
 use super::{FileLocation, FormatError, ParseMode};
-use chrono::{DateTime, Datelike, NaiveDate, Timelike, Utc as ChronoUtc};
+use chrono::{DateTime, Datelike, NaiveDate, TimeDelta, Timelike, Utc as ChronoUtc};
 use qtty::angular::Radians;
 use qtty::angular_rate::AngularRate;
 use qtty::length::Meters;
@@ -295,10 +295,10 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
             let h = parse_int(toc_tokens[3], "hour")?;
             let mi = parse_int(toc_tokens[4], "minute")?;
             let sec_f = parse_d(toc_tokens[5], line_no_1, "second")?;
-            let sec_i = sec_f as u64;
-            let nanos = ((sec_f - sec_i as f64) * 1e9).round() as u32;
             let toc = NaiveDate::from_ymd_opt(y as i32, mo as u32, d as u32)
-                .and_then(|nd| nd.and_hms_nano_opt(h as u32, mi as u32, sec_i as u32, nanos))
+                .and_then(|nd| nd.and_hms_opt(h as u32, mi as u32, 0))
+                .filter(|_| (0.0..60.0).contains(&sec_f))
+                .map(|t| t + TimeDelta::nanoseconds((sec_f * 1e9).round() as i64))
                 .and_then(|naive| {
                     let dt = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
                     Time::<UTC>::try_from_chrono(dt).ok()
-- 
2.43.0


From dc5ea9dc5e69eb24c16a2948871640007f6a3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 052/104] fix: RINEX navigation clock times could be written a
 second early

---
 src/formats/rinex/nav.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index b555829..5918c1a 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -28,7 +28,7 @@
 //! - IS-GPS-200. (current revision). Navstar GPS Space Segment / Navigation
 //!   User Interfaces.
 use super::{FileLocation, FormatError, ParseMode};
-use chrono::{DateTime, Datelike, NaiveDate, TimeDelta, Timelike, Utc as ChronoUtc};
+use chrono::{DateTime, Datelike, NaiveDate, SubsecRound, TimeDelta, Timelike, Utc as ChronoUtc};
 use qtty::angular::Radians;
 use qtty::angular_rate::AngularRate;
 use qtty::length::Meters;
@@ -530,8 +530,8 @@ pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), F
         let dt = r
             .toc
             .try_to_chrono()
-            .map_err(|e| FormatError::Format(format!("rinex_nav: TOC to chrono failed: {e}")))?;
-        let sec = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
+            .map_err(|e| FormatError::Format(format!("rinex_nav: TOC to chrono failed: {e}")))?
+            .round_subsecs(0);
         // Line 0: PRN + TOC + 3 clock terms.
         writeln!(
             w,
@@ -542,7 +542,7 @@ pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), F
             dt.day(),
             dt.hour(),
             dt.minute(),
-            sec as u32,
+            dt.second(),
             fmt_d(r.af0.value()),
             fmt_d(r.af1),
             fmt_d(r.af2),
-- 
2.43.0


From c4c468affb5db66c4f1801cf979a2f48ccdc587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 053/104] fix: RINEX navigation reading crashed on text that is
 not ASCII

---
 src/formats/rinex/nav.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index 5918c1a..65f2533 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -247,18 +247,19 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
 
         // ── PRN ────────────────────────────────────────────────────────────
         let prn_result = if l0.starts_with('G') {
-            l0[1..3].trim().parse::<u8>()
+            l0.get(1..3)
         } else {
-            l0[..3].trim().parse::<u8>()
-        };
+            l0.get(..3)
+        }
+        .and_then(|prn| prn.trim().parse::<u8>().ok());
         let prn = match prn_result {
-            Ok(p) if p > 0 => p,
-            Ok(_) | Err(_) => {
+            Some(p) if p > 0 => p,
+            _ => {
                 if mode == ParseMode::Strict {
                     return Err(FormatError::located(
                         "RINEX 3.05 §6.3",
                         FileLocation::at_line(line_no_1),
-                        format!("invalid GPS PRN: {:?}", &l0[..l0.len().min(3)]),
+                        format!("invalid GPS PRN: {:?}", l0.get(..3).unwrap_or(l0)),
                     ));
                 }
                 i += 8;
-- 
2.43.0


From 8da50f1bf1e561728ed90ae332d9351dba8bda9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 054/104] fix: RINEX observation times that cannot be read were
 taken as midnight

---
 src/formats/rinex/obs.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index c4206ff..c709f83 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -30,7 +30,7 @@
 //! - Misra, P., & Enge, P. (2012). Global Positioning System: Signals,
 //!   Measurements, and Performance (2nd ed.). Ganga-Jamuna Press.
 use super::FormatError;
-use chrono::{DateTime, Datelike, NaiveDate, Timelike, Utc as ChronoUtc};
+use chrono::{DateTime, Datelike, NaiveDate, TimeDelta, Timelike, Utc as ChronoUtc};
 use qtty::length::Meters;
 use qtty::time::Seconds;
 use std::collections::HashMap;
@@ -149,13 +149,13 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
         let year: i32 = parts[1].parse().unwrap_or(0);
         let month: u32 = parts[2].parse().unwrap_or(0);
         let day: u32 = parts[3].parse().unwrap_or(0);
-        let hour: u32 = parts[4].parse().unwrap_or(0);
-        let minute: u32 = parts[5].parse().unwrap_or(0);
-        let second_f: f64 = parts[6].parse().unwrap_or(0.0);
-        let second_int = second_f as u32;
-        let nanos = ((second_f - second_int as f64) * 1e9).round() as u32;
+        let hour: u32 = parts[4].parse().unwrap_or(u32::MAX);
+        let minute: u32 = parts[5].parse().unwrap_or(u32::MAX);
+        let second_f: f64 = parts[6].parse().unwrap_or(f64::NAN);
         let naive = NaiveDate::from_ymd_opt(year, month, day)
-            .and_then(|d| d.and_hms_nano_opt(hour, minute, second_int, nanos))
+            .and_then(|d| d.and_hms_opt(hour, minute, 0))
+            .filter(|_| (0.0..60.0).contains(&second_f))
+            .map(|t| t + TimeDelta::nanoseconds((second_f * 1e9).round() as i64))
             .ok_or_else(|| FormatError::Format("rinex_obs: invalid epoch date".into()))?;
         let epoch_time =
             Time::<UTC>::try_from_chrono(DateTime::from_naive_utc_and_offset(naive, ChronoUtc))
-- 
2.43.0


From bc3eb6105d99e957273dd6f8f0c8676a6adfacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 055/104] fix: RINEX observation event records were read as
 satellites

---
 src/formats/rinex/obs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index c709f83..c6ac6af 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -146,6 +146,10 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
         if parts.len() < 9 {
             continue;
         }
+        // Flags above 1 announce events, not observations.
+        if parts[7].parse().is_ok_and(|flag: u8| flag > 1) {
+            continue;
+        }
         let year: i32 = parts[1].parse().unwrap_or(0);
         let month: u32 = parts[2].parse().unwrap_or(0);
         let day: u32 = parts[3].parse().unwrap_or(0);
-- 
2.43.0


From e680b29e48c0135e9ecd88d48dc36a23d164bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 056/104] fix: RINEX observation times could be written with a
 60th second

---
 src/formats/rinex/nav.rs | 4 +---
 src/formats/rinex/obs.rs | 6 ++++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index 65f2533..62e5ccc 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -462,9 +462,7 @@ fn tokens(line: &str) -> impl Iterator<Item = &str> {
 }
 
 fn collect_floats(line: &str, line_no: usize) -> Result<Vec<f64>, FormatError> {
-    tokens(line)
-        .map(|s| parse_d(s, line_no, "body"))
-        .collect()
+    tokens(line).map(|s| parse_d(s, line_no, "body")).collect()
 }
 
 /// Format an `f64` in Fortran D-notation (e.g. `1.234567890123456E+02` →
diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index c6ac6af..fed886e 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -30,7 +30,7 @@
 //! - Misra, P., & Enge, P. (2012). Global Positioning System: Signals,
 //!   Measurements, and Performance (2nd ed.). Ganga-Jamuna Press.
 use super::FormatError;
-use chrono::{DateTime, Datelike, NaiveDate, TimeDelta, Timelike, Utc as ChronoUtc};
+use chrono::{DateTime, Datelike, NaiveDate, SubsecRound, TimeDelta, Timelike, Utc as ChronoUtc};
 use qtty::length::Meters;
 use qtty::time::Seconds;
 use std::collections::HashMap;
@@ -305,7 +305,9 @@ pub fn write_rinex_obs<W: Write>(w: &mut W, obs: &RinexObs) -> Result<(), Format
         let dt = ep
             .time
             .try_to_chrono()
-            .map_err(|e| FormatError::Format(format!("rinex_obs: epoch to chrono failed: {e}")))?;
+            .map_err(|e| FormatError::Format(format!("rinex_obs: epoch to chrono failed: {e}")))?
+            // to the 1e-7 s printed below, so that no second reads as 60
+            .round_subsecs(7);
         let second = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
         writeln!(
             w,
-- 
2.43.0


From d6abc16a24be20fd84167e264fc3f646af23683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 057/104] fix: RINEX observation reading crashed on text that
 is not ASCII

---
 src/formats/rinex/obs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index fed886e..fd0e9e3 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -102,10 +102,10 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                     .map(Seconds::new);
             }
             "SYS / # / OBS TYPES" => {
-                let bytes = body.as_bytes();
-                if bytes.is_empty() {
+                if !body.is_ascii() || body.is_empty() {
                     continue;
                 }
+                let bytes = body.as_bytes();
                 let sys = bytes[0] as char;
                 if !sys.is_ascii_alphabetic() {
                     continue;
@@ -175,7 +175,7 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 break;
             }
             let row = line.trim_end();
-            if row.len() < 3 {
+            if row.len() < 3 || !row.is_ascii() {
                 continue;
             }
             let sat = row[..3].to_string();
-- 
2.43.0


From 6d2b7d227ee80b2f69c568dca9251db4bbc32969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 058/104] fix: RINEX-DORIS reading crashed on text that is not
 ASCII

---
 src/formats/rinex/doris.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formats/rinex/doris.rs b/src/formats/rinex/doris.rs
index 988fde4..8e4a508 100644
--- a/src/formats/rinex/doris.rs
+++ b/src/formats/rinex/doris.rs
@@ -90,7 +90,7 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
     } {
         let l = line.trim_end_matches(['\n', '\r']);
         if in_header {
-            if l.len() < 61 {
+            if l.len() < 61 || !l.is_ascii() {
                 continue;
             }
             let (data, label) = l.split_at(60);
@@ -127,13 +127,13 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
             }
             continue;
         }
-        let sat_id = if l.len() >= 3 && l.starts_with('D') {
+        let sat_id = if l.is_char_boundary(3) && l.len() >= 3 && l.starts_with('D') {
             Some(l[0..3].to_string())
         } else {
             current_sat.clone()
         };
         if let (Some(mjd), Some(sat)) = (current_obs_epoch, sat_id) {
-            let raw = if l.len() > 3 {
+            let raw = if l.len() > 3 && l.is_char_boundary(3) {
                 l[3..].trim().to_string()
             } else {
                 String::new()
-- 
2.43.0


From d77af5cfdb8022792c2db200880127d156865270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 059/104] fix: RINEX-DORIS continuation lines were dropped

---
 src/formats/rinex/doris.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formats/rinex/doris.rs b/src/formats/rinex/doris.rs
index 8e4a508..8f1236f 100644
--- a/src/formats/rinex/doris.rs
+++ b/src/formats/rinex/doris.rs
@@ -128,7 +128,8 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
             continue;
         }
         let sat_id = if l.is_char_boundary(3) && l.len() >= 3 && l.starts_with('D') {
-            Some(l[0..3].to_string())
+            current_sat = Some(l[0..3].to_string());
+            current_sat.clone()
         } else {
             current_sat.clone()
         };
-- 
2.43.0


From 943aac89d89bf082dbdcd342c034ee4c4900ccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 060/104] fix: RINEX-DORIS epochs that are no date were read as
 another one

---
 src/formats/rinex/doris.rs | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/formats/rinex/doris.rs b/src/formats/rinex/doris.rs
index 8f1236f..67dafba 100644
--- a/src/formats/rinex/doris.rs
+++ b/src/formats/rinex/doris.rs
@@ -115,16 +115,11 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
         if let Some(rest) = l.strip_prefix('>') {
             // RINEX 3 epoch flag line: "> YYYY MM DD HH MM SS.SSS"
             let parts: Vec<&str> = rest.split_whitespace().collect();
-            if parts.len() >= 6 {
-                let y: i32 = parts[0].parse().unwrap_or(0);
-                let mo: u32 = parts[1].parse().unwrap_or(0);
-                let d: u32 = parts[2].parse().unwrap_or(0);
-                let h: u32 = parts[3].parse().unwrap_or(0);
-                let mi: u32 = parts[4].parse().unwrap_or(0);
-                let s: f64 = parts[5].parse().unwrap_or(0.0);
-                current_obs_epoch = Some(date_to_mjd(y, mo, d, h, mi, s));
-                current_sat = None;
-            }
+            current_obs_epoch = match parts[..] {
+                [y, mo, d, h, mi, s, ..] => date_to_mjd(y, mo, d, h, mi, s),
+                _ => None,
+            };
+            current_sat = None;
             continue;
         }
         let sat_id = if l.is_char_boundary(3) && l.len() >= 3 && l.starts_with('D') {
@@ -155,18 +150,14 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
 }
 
 #[cfg(feature = "doris")]
-fn date_to_mjd(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: f64) -> f64 {
-    // Standard civil → MJD conversion (Meeus §7).
-    let (yy, mm) = if mo <= 2 { (y - 1, mo + 12) } else { (y, mo) };
-    let a = (yy as f64 / 100.0).floor();
-    let b = 2.0 - a + (a / 4.0).floor();
-    let jd = (365.25 * (yy as f64 + 4716.0)).floor()
-        + (30.6001 * (mm as f64 + 1.0)).floor()
-        + d as f64
-        + b
-        - 1524.5
-        + (h as f64 + mi as f64 / 60.0 + s / 3600.0) / 24.0;
-    jd - 2_400_000.5
+fn date_to_mjd(y: &str, mo: &str, d: &str, h: &str, mi: &str, s: &str) -> Option<f64> {
+    let date = chrono::NaiveDate::from_ymd_opt(y.parse().ok()?, mo.parse().ok()?, d.parse().ok()?)?;
+    let h: f64 = h.parse().ok().filter(|h: &u32| *h < 24)?.into();
+    let mi: f64 = mi.parse().ok().filter(|m: &u32| *m < 60)?.into();
+    let s: f64 = s.parse().ok().filter(|s| (0.0..61.0).contains(s))?;
+    let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17)?;
+    let days = (date - mjd_ref).num_days() as f64;
+    Some(days + (h + mi / 60.0 + s / 3600.0) / 24.0)
 }
 
 /// Read a RINEX-DORIS file. Returns [`FormatError::Unsupported`] unless
-- 
2.43.0


From 5955ed7ada20363e92da2853d5c8979c47694572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 061/104] fix: SINEX solutions and points of one site were
 mixed into one position

---
 src/formats/igs/sinex.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/formats/igs/sinex.rs b/src/formats/igs/sinex.rs
index 97c6acb..d71e5ed 100644
--- a/src/formats/igs/sinex.rs
+++ b/src/formats/igs/sinex.rs
@@ -16,7 +16,7 @@ use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::ITRF;
 use qtty::unit::Meter;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::io::{BufRead, BufReader, Read};
 
 /// Earth geocenter marker for SINEX ITRF coordinates.
@@ -150,10 +150,9 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
         xyz: [Option<f64>; 3],
         vel: [Option<f64>; 3],
         ref_epoch_mjd: f64,
-        pt: String,
-        soln: String,
     }
-    let mut estimates: HashMap<String, EstRow> = HashMap::new();
+    // A site may have several points and solutions: each is a station of its own.
+    let mut estimates: BTreeMap<(String, String, String), EstRow> = BTreeMap::new();
 
     #[derive(PartialEq)]
     enum Block {
@@ -240,9 +239,7 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
                 };
 
                 let ref_epoch_mjd = sinex_epoch_to_mjd(epoch_raw);
-                let row = estimates.entry(code.clone()).or_default();
-                row.pt = pt;
-                row.soln = soln;
+                let row = estimates.entry((code, pt, soln)).or_default();
                 row.ref_epoch_mjd = ref_epoch_mjd;
                 match est_type {
                     "STAX" => row.xyz[0] = Some(value),
@@ -259,7 +256,7 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
     }
 
     // Build station records from accumulated estimates.
-    for (code, row) in estimates {
+    for ((code, pt, soln), row) in estimates {
         let (x, y, z) = match (row.xyz[0], row.xyz[1], row.xyz[2]) {
             (Some(x), Some(y), Some(z)) => (x, y, z),
             _ => continue,
@@ -270,8 +267,8 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
         };
         solution.stations.push(StationCoordinate {
             code,
-            point_code: row.pt,
-            solution_id: row.soln,
+            point_code: pt,
+            solution_id: soln,
             ref_epoch_mjd: row.ref_epoch_mjd,
             position: SinexPosition::new(x, y, z),
             velocity_m_yr,
-- 
2.43.0


From 81e14f055ef7da407521902ba3ff0832f0bc16ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 062/104] fix: SINEX epochs that cannot be read were taken as
 another one

---
 src/formats/igs/sinex.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/formats/igs/sinex.rs b/src/formats/igs/sinex.rs
index d71e5ed..a44a4d1 100644
--- a/src/formats/igs/sinex.rs
+++ b/src/formats/igs/sinex.rs
@@ -238,7 +238,17 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
                     }
                 };
 
-                let ref_epoch_mjd = sinex_epoch_to_mjd(epoch_raw);
+                let ref_epoch_mjd = match sinex_epoch_to_mjd(epoch_raw) {
+                    Some(mjd) => mjd,
+                    None if mode == ParseMode::Strict => {
+                        return Err(FormatError::located(
+                            "SINEX 2.10 §4.2",
+                            FileLocation::at_line(lineno),
+                            format!("cannot parse epoch: {epoch_raw}"),
+                        ));
+                    }
+                    None => 0.0,
+                };
                 let row = estimates.entry((code, pt, soln)).or_default();
                 row.ref_epoch_mjd = ref_epoch_mjd;
                 match est_type {
@@ -279,14 +289,14 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
 }
 
 /// Convert a SINEX epoch string `"YY:DDD:SSSSS"` to MJD.
-fn sinex_epoch_to_mjd(s: &str) -> f64 {
+fn sinex_epoch_to_mjd(s: &str) -> Option<f64> {
     let parts: Vec<&str> = s.split(':').collect();
-    if parts.len() != 3 {
-        return 0.0;
-    }
-    let yy: i32 = parts[0].parse().unwrap_or(0);
-    let doy: u32 = parts[1].parse().unwrap_or(1);
-    let sod: f64 = parts[2].parse().unwrap_or(0.0);
+    let [yy, doy, sod] = parts[..] else {
+        return None;
+    };
+    let yy: i32 = yy.parse().ok()?;
+    let doy: u32 = doy.parse().ok()?;
+    let sod: f64 = sod.parse().ok().filter(|s| (0.0..=86400.0).contains(s))?;
     let yyyy = if yy == 0 {
         2000
     } else if yy >= 80 {
@@ -294,13 +304,10 @@ fn sinex_epoch_to_mjd(s: &str) -> f64 {
     } else {
         2000 + yy
     };
-    let epoch = match chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1)) {
-        Some(d) => d,
-        None => return 0.0,
-    };
+    let epoch = chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1))?;
     let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
     let days = (epoch - mjd_ref).num_days() as f64;
-    days + sod / 86400.0
+    Some(days + sod / 86400.0)
 }
 
 #[cfg(test)]
-- 
2.43.0


From bf87b9390d8a8aa83afe7b0862ae7e8a0c2f0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 063/104] fix: SINEX years 51 to 79 are of the 20th century

---
 src/formats/igs/sinex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formats/igs/sinex.rs b/src/formats/igs/sinex.rs
index a44a4d1..267b76f 100644
--- a/src/formats/igs/sinex.rs
+++ b/src/formats/igs/sinex.rs
@@ -299,7 +299,7 @@ fn sinex_epoch_to_mjd(s: &str) -> Option<f64> {
     let sod: f64 = sod.parse().ok().filter(|s| (0.0..=86400.0).contains(s))?;
     let yyyy = if yy == 0 {
         2000
-    } else if yy >= 80 {
+    } else if yy > 50 {
         1900 + yy
     } else {
         2000 + yy
-- 
2.43.0


From 297ff8f5597c6ca84ec42b6fdceb0e195bf30d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 064/104] fix: EOP fields that cannot be read were taken as
 zero

---
 src/formats/iers/eop.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index 37e4b8e..96a4800 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -93,12 +93,10 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
             Ok(m) => m,
             Err(_) => continue,
         };
-        let x = parts[4].parse().unwrap_or(0.0);
-        let y = parts[5].parse().unwrap_or(0.0);
-        let ut1 = parts[6].parse().unwrap_or(0.0);
-        let lod = parts[7].parse().unwrap_or(0.0);
-        let dpsi = parts[8].parse().unwrap_or(0.0);
-        let deps = parts[9].parse().unwrap_or(0.0);
+        let values: Vec<f64> = parts[4..10].iter().flat_map(|s| s.parse()).collect();
+        let [x, y, ut1, lod, dpsi, deps] = values[..] else {
+            continue;
+        };
         out.push(EopRecord {
             mjd,
             eop: EopValues {
-- 
2.43.0


From 4f7b3a66c1412ea2b4b6214934230bee3a165557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 065/104] fix: UT1-UTC was smeared over the day before a leap
 second

---
 src/formats/iers/eop.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index 96a4800..e9dfedb 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -143,12 +143,15 @@ pub fn interpolate(records: &[EopRecord], mjd: ModifiedJulianDate<UTC>) -> Optio
     let b_val = b.mjd.raw().value();
     let t_val = mjd.raw().value();
     let f = (t_val - a_val) / (b_val - a_val);
+    // UT1-UTC steps by a second where a leap second is, at the later record.
+    let dut1_change = b.eop.dut1.value() - a.eop.dut1.value();
+    let dut1_change = dut1_change - dut1_change.round();
     Some(EopRecord {
         mjd,
         eop: EopValues {
             xp: Arcseconds::new(a.eop.xp.value() + f * (b.eop.xp.value() - a.eop.xp.value())),
             yp: Arcseconds::new(a.eop.yp.value() + f * (b.eop.yp.value() - a.eop.yp.value())),
-            dut1: Seconds::new(a.eop.dut1.value() + f * (b.eop.dut1.value() - a.eop.dut1.value())),
+            dut1: Seconds::new(a.eop.dut1.value() + f * dut1_change),
             lod: Seconds::new(a.eop.lod.value() + f * (b.eop.lod.value() - a.eop.lod.value())),
             dx: MilliArcseconds::new(a.eop.dx.value() + f * (b.eop.dx.value() - a.eop.dx.value())),
             dy: MilliArcseconds::new(a.eop.dy.value() + f * (b.eop.dy.value() - a.eop.dy.value())),
-- 
2.43.0


From 68401c1c46c55495db9ca2ce97d79505e0ee0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 066/104] fix: TLE values that do not fit their columns were
 formatted into overlong lines

---
 src/formats/tle/builder.rs | 68 ++++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/src/formats/tle/builder.rs b/src/formats/tle/builder.rs
index b9da383..42868ac 100644
--- a/src/formats/tle/builder.rs
+++ b/src/formats/tle/builder.rs
@@ -377,7 +377,14 @@ impl TleBuilder {
 pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let cat = tle.norad_id.format_alpha5()?;
     let cls = tle.classification.as_char();
-    let intl = format!("{:<8}", tle.international_designator.0);
+    let designator = &tle.international_designator.0;
+    if !designator.is_ascii() {
+        return Err(TleError::InvalidNumber {
+            field: "international_designator",
+            raw: designator.clone(),
+        });
+    }
+    let intl = fit(format!("{designator:<8}"), 8, "international_designator")?;
     let dt = tle
         .epoch
         .try_to_chrono()
@@ -390,9 +397,15 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let frac_day = secs_of_day / 86_400.0;
     let day_full = doy as f64 + frac_day;
     let n_dot = format_signed_decimal(tle.mean_motion_dot);
+    let n_dot = fit(n_dot, 10, "mean_motion_dot")?;
     let n_ddot = format_assumed_decimal_exponent(tle.mean_motion_ddot);
-    let bstar_s = format_assumed_decimal_exponent(tle.bstar);
-    let elset = format!("{:>4}", tle.element_set_number);
+    let n_ddot = fit(n_ddot, 8, "mean_motion_ddot")?;
+    let bstar_s = fit(format_assumed_decimal_exponent(tle.bstar), 8, "bstar")?;
+    let elset = fit(
+        format!("{:>4}", tle.element_set_number),
+        4,
+        "element_set_number",
+    )?;
     let mut l1 =
         format!("1 {cat}{cls} {intl} {yy:02}{day_full:012.8} {n_dot} {n_ddot} {bstar_s} 0 {elset}");
     debug_assert_eq!(
@@ -403,14 +416,24 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let cs1 = compute_tle_checksum(&l1);
     l1.push_str(&cs1.to_string());
 
-    let inc = format!("{:8.4}", tle.inclination.value());
-    let raan = format!("{:8.4}", tle.raan.value());
+    let inc = format_decimal(tle.inclination.value(), 8, 4, "inclination")?;
+    let raan = format_decimal(tle.raan.value(), 8, 4, "raan")?;
+    if !(0.0..1.0).contains(&tle.eccentricity) {
+        return Err(TleError::InvalidNumber {
+            field: "eccentricity",
+            raw: tle.eccentricity.to_string(),
+        });
+    }
     let ecc_scaled = (tle.eccentricity * 1.0e7).round() as u64;
-    let ecc = format!("{ecc_scaled:07}");
-    let argp = format!("{:8.4}", tle.argument_of_perigee.value());
-    let m_ano = format!("{:8.4}", tle.mean_anomaly.value());
-    let n_str = format!("{:11.8}", tle.mean_motion.value());
-    let rev = format!("{:>5}", tle.revolution_number_at_epoch);
+    let ecc = fit(format!("{ecc_scaled:07}"), 7, "eccentricity")?;
+    let argp = format_decimal(tle.argument_of_perigee.value(), 8, 4, "argument_of_perigee")?;
+    let m_ano = format_decimal(tle.mean_anomaly.value(), 8, 4, "mean_anomaly")?;
+    let n_str = format_decimal(tle.mean_motion.value(), 11, 8, "mean_motion")?;
+    let rev = fit(
+        format!("{:>5}", tle.revolution_number_at_epoch),
+        5,
+        "revolution_number",
+    )?;
     let mut l2 = format!("2 {cat} {inc} {raan} {ecc} {argp} {m_ano} {n_str}{rev}");
     debug_assert_eq!(
         l2.len(),
@@ -422,6 +445,31 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     Ok((l1, l2))
 }
 
+/// Pass a rendered field through if it fits its columns.
+fn fit(text: String, width: usize, field: &'static str) -> Result<String, TleError> {
+    if text.len() > width {
+        return Err(TleError::InvalidNumber { field, raw: text });
+    }
+    Ok(text)
+}
+
+/// Render a fixed-point field, refusing values that are not finite or do not
+/// fit its columns.
+fn format_decimal(
+    v: f64,
+    width: usize,
+    decimals: usize,
+    field: &'static str,
+) -> Result<String, TleError> {
+    if !v.is_finite() {
+        return Err(TleError::InvalidNumber {
+            field,
+            raw: v.to_string(),
+        });
+    }
+    fit(format!("{v:width$.decimals$}"), width, field)
+}
+
 fn format_signed_decimal(v: f64) -> String {
     let sign = if v.is_sign_negative() { '-' } else { ' ' };
     let mag = v.abs();
-- 
2.43.0


From f85973a9dfc1e2bcb5f2fed5b506aef5bc8f2777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 067/104] fix: TLE drag terms were formatted with six-digit
 mantissas or two-digit exponents

---
 src/formats/tle/builder.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/formats/tle/builder.rs b/src/formats/tle/builder.rs
index 42868ac..0640201 100644
--- a/src/formats/tle/builder.rs
+++ b/src/formats/tle/builder.rs
@@ -396,6 +396,18 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
         dt.num_seconds_from_midnight() as f64 + dt.timestamp_subsec_nanos() as f64 * 1e-9;
     let frac_day = secs_of_day / 86_400.0;
     let day_full = doy as f64 + frac_day;
+    for (value, field) in [
+        (tle.mean_motion_dot, "mean_motion_dot"),
+        (tle.mean_motion_ddot, "mean_motion_ddot"),
+        (tle.bstar, "bstar"),
+    ] {
+        if !value.is_finite() {
+            return Err(TleError::InvalidNumber {
+                field,
+                raw: value.to_string(),
+            });
+        }
+    }
     let n_dot = format_signed_decimal(tle.mean_motion_dot);
     let n_dot = fit(n_dot, 10, "mean_motion_dot")?;
     let n_ddot = format_assumed_decimal_exponent(tle.mean_motion_ddot);
@@ -478,24 +490,22 @@ fn format_signed_decimal(v: f64) -> String {
 }
 
 fn format_assumed_decimal_exponent(v: f64) -> String {
-    if v == 0.0 || !v.is_finite() {
+    if v == 0.0 {
         return " 00000-0".to_string();
     }
     let sign = if v.is_sign_negative() { '-' } else { ' ' };
     let mag = v.abs();
-    let mut exp = mag.log10().floor() as i32 + 1;
-    let mut mantissa = mag / 10f64.powi(exp);
-    let scaled = (mantissa * 1.0e5).round() as u64;
-    if scaled >= 1_000_000 {
-        mantissa /= 10.0;
+    // One digit is available for the exponent; smaller values lose leading digits.
+    let mut exp = (mag.log10().floor() as i32 + 1).max(-9);
+    let mut scaled = (mag / 10f64.powi(exp) * 1.0e5).round() as u64;
+    if scaled >= 100_000 {
+        scaled /= 10;
         exp += 1;
     }
-    let scaled = (mantissa * 1.0e5).round() as u64;
+    if scaled == 0 {
+        return " 00000-0".to_string();
+    }
     let exp_sign = if exp < 0 { '-' } else { '+' };
     let exp_abs = exp.unsigned_abs();
-    if exp_sign == '+' {
-        format!("{sign}{scaled:05}+{exp_abs}")
-    } else {
-        format!("{sign}{scaled:05}-{exp_abs}")
-    }
+    format!("{sign}{scaled:05}{exp_sign}{exp_abs}")
 }
-- 
2.43.0


From 64845a522594b4d56cf4dba8fda46d61cfe5cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 068/104] fix: TLE epochs rounding up at year end or outside
 1957-2056 were formatted as other dates

---
 src/formats/tle/builder.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/formats/tle/builder.rs b/src/formats/tle/builder.rs
index 0640201..78c7375 100644
--- a/src/formats/tle/builder.rs
+++ b/src/formats/tle/builder.rs
@@ -389,13 +389,30 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
         .epoch
         .try_to_chrono()
         .map_err(|e| TleError::EpochConversion(format!("{e:?}")))?;
-    let year = dt.year();
-    let yy = ((year % 100) + 100) % 100;
-    let doy = dt.ordinal();
-    let secs_of_day =
-        dt.num_seconds_from_midnight() as f64 + dt.timestamp_subsec_nanos() as f64 * 1e-9;
-    let frac_day = secs_of_day / 86_400.0;
-    let day_full = doy as f64 + frac_day;
+    // Round to the 1e-8 day the field resolves before splitting off the day,
+    // so that rounding up at midnight carries into the next day and year.
+    const NANOS_PER_UNIT: u64 = 864_000;
+    const UNITS_PER_DAY: u64 = 100_000_000;
+    let nanos_of_day = u64::from(dt.num_seconds_from_midnight()) * 1_000_000_000
+        + u64::from(dt.nanosecond());
+    let mut date = dt.date_naive();
+    let mut units = (nanos_of_day + NANOS_PER_UNIT / 2) / NANOS_PER_UNIT;
+    if units >= UNITS_PER_DAY {
+        units -= UNITS_PER_DAY;
+        date = date
+            .succ_opt()
+            .ok_or_else(|| TleError::EpochConversion(format!("{dt} has no following day")))?;
+    }
+    let year = date.year();
+    let doy = date.ordinal();
+    if !(1957..=2056).contains(&year) {
+        return Err(TleError::InvalidEpoch {
+            year,
+            day_of_year: f64::from(doy),
+            reason: "year cannot be expressed in two digits",
+        });
+    }
+    let yy = year % 100;
     for (value, field) in [
         (tle.mean_motion_dot, "mean_motion_dot"),
         (tle.mean_motion_ddot, "mean_motion_ddot"),
@@ -419,7 +436,7 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
         "element_set_number",
     )?;
     let mut l1 =
-        format!("1 {cat}{cls} {intl} {yy:02}{day_full:012.8} {n_dot} {n_ddot} {bstar_s} 0 {elset}");
+        format!("1 {cat}{cls} {intl} {yy:02}{doy:03}.{units:08} {n_dot} {n_ddot} {bstar_s} 0 {elset}");
     debug_assert_eq!(
         l1.len(),
         68,
-- 
2.43.0


From 198cca6c25ead8c04fb00689ea9046b446e7af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 069/104] fix: a TLE line holding non-ASCII text made the
 reader panic

---
 src/formats/tle/parse.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index 676d2a1..25a7b8d 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -38,6 +38,7 @@ pub fn validate_tle_checksum(line: &str) -> Result<(), TleError> {
             got: line.len(),
         });
     }
+    require_ascii(line, line_no)?;
     let bytes = line.as_bytes();
     let stated_byte = bytes[68];
     if !stated_byte.is_ascii_digit() {
@@ -59,6 +60,17 @@ pub fn validate_tle_checksum(line: &str) -> Result<(), TleError> {
     Ok(())
 }
 
+/// Fields are cut at byte columns, which is only possible in ASCII text.
+fn require_ascii(line: &str, line_no: u8) -> Result<(), TleError> {
+    match line.chars().find(|c| !c.is_ascii()) {
+        None => Ok(()),
+        Some(_) => Err(TleError::InvalidNumber {
+            field: if line_no == 2 { "line 2" } else { "line 1" },
+            raw: line.into(),
+        }),
+    }
+}
+
 /// Compute the canonical TLE checksum digit for the first 68 columns.
 ///
 /// # Examples
@@ -139,6 +151,8 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
             got: line2.len(),
         });
     }
+    require_ascii(line1, 1)?;
+    require_ascii(line2, 2)?;
     let l1b = line1.as_bytes();
     let l2b = line2.as_bytes();
     if l1b[0] as char != '1' {
-- 
2.43.0


From 29e2f78e79bbdbb738f544c7c697b9814c570b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 070/104] fix: signed TLE counters and years were wrapped into
 other values

---
 src/formats/tle/parse.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index 25a7b8d..0c2ee52 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -175,13 +175,13 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
     let norad_l1 = SatelliteNumber::parse(&line1[2..7])?;
     let classification = Classification::from_char(line1.as_bytes()[7] as char)?;
     let intl_des = InternationalDesignator(line1[9..17].trim().to_string());
-    let epoch_year_2 = parse_int_field(&line1[18..20], "epoch_year")?;
+    let epoch_year_2 = parse_count_field(&line1[18..20], "epoch_year")?;
     let epoch_day = parse_float_field(&line1[20..32], "epoch_day")?;
     let mean_motion_dot = parse_signed_decimal(&line1[33..43], "mean_motion_dot")?;
     let mean_motion_ddot = parse_assumed_decimal_exponent(&line1[44..52], "mean_motion_ddot")?;
     let bstar = parse_assumed_decimal_exponent(&line1[53..61], "bstar")?;
     let element_set_number =
-        parse_int_field(line1[64..68].trim_start(), "element_set_number")? as u16;
+        parse_count_field(line1[64..68].trim_start(), "element_set_number")? as u16;
 
     let norad_l2 = SatelliteNumber::parse(&line2[2..7])?;
     if norad_l1 != norad_l2 {
@@ -211,7 +211,7 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
     let mean_motion_revs_per_day = parse_float_field(&line2[52..63], "mean_motion")?;
     let mean_motion = AngularRate::<Turn, Day>::new(mean_motion_revs_per_day);
     let revolution_number_at_epoch =
-        parse_int_field(line2[63..68].trim_start(), "revolution_number")? as u32;
+        parse_count_field(line2[63..68].trim_start(), "revolution_number")?;
 
     let epoch = epoch_from_year_doy(expand_two_digit_year(epoch_year_2 as i32), epoch_day)?;
 
@@ -265,12 +265,17 @@ pub(crate) fn epoch_from_year_doy(year: i32, day_of_year: f64) -> Result<Time<UT
     Time::<UTC>::try_from_chrono(dt).map_err(|e| TleError::EpochConversion(format!("{e:?}")))
 }
 
-fn parse_int_field(raw: &str, field: &'static str) -> Result<i64, TleError> {
+/// Counters are unsigned: a sign has no place in them.
+fn parse_count_field(raw: &str, field: &'static str) -> Result<u32, TleError> {
     let s = raw.trim();
-    s.parse::<i64>().map_err(|_| TleError::InvalidNumber {
+    let invalid = || TleError::InvalidNumber {
         field,
         raw: raw.into(),
-    })
+    };
+    if !s.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(invalid());
+    }
+    s.parse::<u32>().map_err(|_| invalid())
 }
 
 fn parse_float_field(raw: &str, field: &'static str) -> Result<f64, TleError> {
-- 
2.43.0


From f592534fe7f6b20db68bf98d5b78c767cdbcb91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 071/104] fix: NaN and infinity were accepted as TLE elements

---
 src/formats/tle/parse.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index 0c2ee52..2a65773 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -279,19 +279,17 @@ fn parse_count_field(raw: &str, field: &'static str) -> Result<u32, TleError> {
 }
 
 fn parse_float_field(raw: &str, field: &'static str) -> Result<f64, TleError> {
-    let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    match raw.trim().parse::<f64>() {
+        Ok(value) if value.is_finite() => Ok(value),
+        _ => Err(TleError::InvalidNumber {
+            field,
+            raw: raw.into(),
+        }),
+    }
 }
 
 fn parse_signed_decimal(raw: &str, field: &'static str) -> Result<f64, TleError> {
-    let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    parse_float_field(raw, field)
 }
 
 /// Parse the TLE assumed-decimal-with-exponent encoding (e.g. `" 12345-3"` →
-- 
2.43.0


From 0673578cf93321e48aa7674c24c3acfc65e0448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 072/104] fix: optional OMM fields that cannot be read were
 taken as zero

---
 src/formats/tle/omm/kvn.rs | 20 +++++++-------------
 src/formats/tle/omm/mod.rs | 17 +++++++++++++++++
 src/formats/tle/omm/xml.rs | 30 ++++++++++++++----------------
 3 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index 98d400c..5678d03 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -8,7 +8,7 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{format_epoch, narrow, optional, parse_epoch, Omm};
 use crate::formats::tle::TleError;
 use crate::formats::tle::{Classification, SatelliteNumber};
 
@@ -160,19 +160,13 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: narrow("EPHEMERIS_TYPE", optional(getu("EPHEMERIS_TYPE"))?)?,
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: getu("REV_AT_EPOCH").unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: narrow("ELEMENT_SET_NO", optional(getu("ELEMENT_SET_NO"))?)?,
+        rev_at_epoch: optional(getu("REV_AT_EPOCH"))?,
+        bstar: optional(getf("BSTAR"))?,
+        mean_motion_dot: optional(getf("MEAN_MOTION_DOT"))?,
+        mean_motion_ddot: optional(getf("MEAN_MOTION_DDOT"))?,
     })
 }
diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index 4cdd4a5..f929ca4 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -249,3 +249,20 @@ pub(crate) fn parse_epoch(raw: &str) -> Result<Time<UTC>, TleError> {
     let utc_dt = Utc.from_utc_datetime(&dt);
     Time::<UTC>::try_from_chrono(utc_dt).map_err(|e| TleError::EpochConversion(format!("{e:?}")))
 }
+
+/// An optional field that is absent counts as zero; one that is present has to
+/// be readable.
+pub(crate) fn optional<T: Default>(value: Result<T, TleError>) -> Result<T, TleError> {
+    match value {
+        Err(TleError::OmmMissingField(_)) => Ok(T::default()),
+        other => other,
+    }
+}
+
+/// Convert a counter to the width it is held in.
+pub(crate) fn narrow<T: TryFrom<u32>>(field: &'static str, value: u32) -> Result<T, TleError> {
+    T::try_from(value).map_err(|_| TleError::InvalidNumber {
+        field,
+        raw: value.to_string(),
+    })
+}
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index 3599211..8776e8f 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -13,7 +13,7 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{format_epoch, narrow, optional, parse_epoch, Omm};
 use crate::formats::tle::TleError;
 use crate::formats::tle::{Classification, SatelliteNumber};
 
@@ -124,6 +124,13 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
             reason: format!("<{k}> = {v:?} is not a float"),
         })
     };
+    let getu = |k: &'static str| -> Result<u32, TleError> {
+        let v = get(k)?;
+        v.parse::<u32>().map_err(|_| TleError::OmmMalformed {
+            format: "XML",
+            reason: format!("<{k}> = {v:?} is not an unsigned integer"),
+        })
+    };
 
     let object_name = xml_unescape(get("OBJECT_NAME")?);
     let object_id = xml_unescape(get("OBJECT_ID")?);
@@ -146,23 +153,14 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: narrow("EPHEMERIS_TYPE", optional(getu("EPHEMERIS_TYPE"))?)?,
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: kv
-            .get("REV_AT_EPOCH")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: narrow("ELEMENT_SET_NO", optional(getu("ELEMENT_SET_NO"))?)?,
+        rev_at_epoch: optional(getu("REV_AT_EPOCH"))?,
+        bstar: optional(getf("BSTAR"))?,
+        mean_motion_dot: optional(getf("MEAN_MOTION_DOT"))?,
+        mean_motion_ddot: optional(getf("MEAN_MOTION_DDOT"))?,
     })
 }
 
-- 
2.43.0


From 3f2fa3e8282b16a69556e7259f98fd0f6252a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 073/104] fix: NaN and infinity were accepted as OMM elements

---
 src/formats/tle/omm/kvn.rs | 11 +++++++----
 src/formats/tle/omm/xml.rs | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index 5678d03..328d0d9 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -124,10 +124,13 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     };
     let getf = |k: &'static str| -> Result<f64, TleError> {
         let v = get(k)?;
-        v.parse::<f64>().map_err(|_| TleError::OmmMalformed {
-            format: "KVN",
-            reason: format!("{k}={v:?} is not a float"),
-        })
+        match v.parse::<f64>() {
+            Ok(value) if value.is_finite() => Ok(value),
+            _ => Err(TleError::OmmMalformed {
+                format: "KVN",
+                reason: format!("{k}={v:?} is not a float"),
+            }),
+        }
     };
     let getu = |k: &'static str| -> Result<u32, TleError> {
         let v = get(k)?;
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index 8776e8f..4b0d848 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -119,10 +119,13 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     };
     let getf = |k: &'static str| -> Result<f64, TleError> {
         let v = get(k)?;
-        v.parse::<f64>().map_err(|_| TleError::OmmMalformed {
-            format: "XML",
-            reason: format!("<{k}> = {v:?} is not a float"),
-        })
+        match v.parse::<f64>() {
+            Ok(value) if value.is_finite() => Ok(value),
+            _ => Err(TleError::OmmMalformed {
+                format: "XML",
+                reason: format!("<{k}> = {v:?} is not a float"),
+            }),
+        }
     };
     let getu = |k: &'static str| -> Result<u32, TleError> {
         let v = get(k)?;
-- 
2.43.0


From a3a8d33fc30e336d15e1d78fd8ecc4b494063a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 074/104] fix: OMM catalogue numbers beyond five digits could
 be written but not read

---
 src/formats/tle/omm/kvn.rs |  6 +++---
 src/formats/tle/omm/mod.rs | 15 +++++++++++++++
 src/formats/tle/omm/xml.rs |  6 +++---
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index 328d0d9..e39a36f 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -8,9 +8,9 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, narrow, optional, parse_epoch, Omm};
+use super::{format_epoch, narrow, optional, parse_epoch, parse_norad_id, Omm};
 use crate::formats::tle::TleError;
-use crate::formats::tle::{Classification, SatelliteNumber};
+use crate::formats::tle::Classification;
 
 /// Render an [`Omm`] to its KVN form.
 ///
@@ -151,7 +151,7 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     let classification = Classification::from_char(cls_char)?;
 
     let norad_str = get("NORAD_CAT_ID")?;
-    let norad_id = SatelliteNumber::parse(norad_str)?;
+    let norad_id = parse_norad_id(norad_str)?;
 
     Ok(Omm {
         object_name,
diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index f929ca4..9132745 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -266,3 +266,18 @@ pub(crate) fn narrow<T: TryFrom<u32>>(field: &'static str, value: u32) -> Result
         raw: value.to_string(),
     })
 }
+
+/// Catalogue numbers are plain integers here, beyond five digits too; the
+/// Alpha-5 spelling of TLEs is accepted as well.
+pub(crate) fn parse_norad_id(raw: &str) -> Result<SatelliteNumber, TleError> {
+    if !raw.is_empty() && raw.bytes().all(|b| b.is_ascii_digit()) {
+        return raw
+            .parse()
+            .map(SatelliteNumber)
+            .map_err(|_| TleError::InvalidNumber {
+                field: "NORAD_CAT_ID",
+                raw: raw.into(),
+            });
+    }
+    SatelliteNumber::parse(raw)
+}
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index 4b0d848..61fed23 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -13,9 +13,9 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, narrow, optional, parse_epoch, Omm};
+use super::{format_epoch, narrow, optional, parse_epoch, parse_norad_id, Omm};
 use crate::formats::tle::TleError;
-use crate::formats::tle::{Classification, SatelliteNumber};
+use crate::formats::tle::Classification;
 
 /// Render an [`Omm`] to its XML form (`<omm>...</omm>`).
 ///
@@ -144,7 +144,7 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         .unwrap_or("U");
     let cls_char = cls_raw.chars().next().unwrap_or('U');
     let classification = Classification::from_char(cls_char)?;
-    let norad_id = SatelliteNumber::parse(get("NORAD_CAT_ID")?)?;
+    let norad_id = parse_norad_id(get("NORAD_CAT_ID")?)?;
 
     Ok(Omm {
         object_name,
-- 
2.43.0


From 8b38b533c8d1aa021746fa6f2819d5b61bf5894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 075/104] fix: the UTC offset of an OMM epoch was discarded

---
 src/formats/tle/omm/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index 9132745..c971436 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -234,8 +234,10 @@ pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
 /// optional `Z`/`+00:00` zone) into a UTC [`Time`].
 pub(crate) fn parse_epoch(raw: &str) -> Result<Time<UTC>, TleError> {
     let s = raw.trim();
-    let trimmed = s.trim_end_matches('Z');
-    let trimmed = trimmed.split('+').next().unwrap_or(trimmed);
+    let trimmed = s
+        .strip_suffix('Z')
+        .or_else(|| s.strip_suffix("+00:00"))
+        .unwrap_or(s);
     let dt = chrono::NaiveDateTime::parse_from_str(trimmed, "%Y-%m-%dT%H:%M:%S%.f")
         .or_else(|_| chrono::NaiveDateTime::parse_from_str(trimmed, "%Y-%m-%dT%H:%M:%S"))
         .map_err(|e| TleError::OmmInvalidEpoch {
-- 
2.43.0


From 033cd08f6126d15aa44a4c082e6d3fae2b50362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 076/104] fix: an OMM in another time system was read as UTC

---
 src/formats/tle/omm/json.rs |  6 +++++-
 src/formats/tle/omm/kvn.rs  |  4 +++-
 src/formats/tle/omm/mod.rs  | 14 ++++++++++++++
 src/formats/tle/omm/xml.rs  |  4 +++-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/formats/tle/omm/json.rs b/src/formats/tle/omm/json.rs
index 020c6df..e1ade8a 100644
--- a/src/formats/tle/omm/json.rs
+++ b/src/formats/tle/omm/json.rs
@@ -9,7 +9,7 @@ use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 use serde::{Deserialize, Serialize};
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{check_time_system, format_epoch, parse_epoch, Omm};
 use crate::formats::tle::TleError;
 use crate::formats::tle::{Classification, SatelliteNumber};
 
@@ -119,6 +119,8 @@ struct OmmDto {
     MEAN_MOTION_DDOT: f64,
     #[serde(default)]
     MEAN_ELEMENT_THEORY: Option<String>,
+    #[serde(default, skip_serializing_if = "Option::is_none")]
+    TIME_SYSTEM: Option<String>,
 }
 
 fn default_classification() -> String {
@@ -146,6 +148,7 @@ impl OmmDto {
             MEAN_MOTION_DOT: omm.mean_motion_dot,
             MEAN_MOTION_DDOT: omm.mean_motion_ddot,
             MEAN_ELEMENT_THEORY: Some("SGP4".to_string()),
+            TIME_SYSTEM: None,
         })
     }
 
@@ -155,6 +158,7 @@ impl OmmDto {
                 return Err(TleError::OmmUnsupportedTheory(t.clone()));
             }
         }
+        check_time_system(self.TIME_SYSTEM.as_deref(), "JSON")?;
         let cls_char = self.CLASSIFICATION_TYPE.chars().next().unwrap_or('U');
         Ok(Omm {
             object_name: self.OBJECT_NAME,
diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index e39a36f..e71bb6a 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -8,7 +8,7 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, narrow, optional, parse_epoch, parse_norad_id, Omm};
+use super::{check_time_system, format_epoch, narrow, optional, parse_epoch, parse_norad_id, Omm};
 use crate::formats::tle::TleError;
 use crate::formats::tle::Classification;
 
@@ -119,6 +119,8 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         return Err(TleError::OmmUnsupportedTheory(theory.to_string()));
     }
 
+    check_time_system(kv.get("TIME_SYSTEM").map(String::as_str), "KVN")?;
+
     let get = |k: &'static str| -> Result<&String, TleError> {
         kv.get(k).ok_or(TleError::OmmMissingField(k))
     };
diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index c971436..3c40e48 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -283,3 +283,17 @@ pub(crate) fn parse_norad_id(raw: &str) -> Result<SatelliteNumber, TleError> {
     }
     SatelliteNumber::parse(raw)
 }
+
+/// Epochs are held in UTC, so a message that states another scale is refused.
+pub(crate) fn check_time_system(
+    stated: Option<&str>,
+    format: &'static str,
+) -> Result<(), TleError> {
+    match stated {
+        Some(scale) if !scale.eq_ignore_ascii_case("UTC") => Err(TleError::OmmMalformed {
+            format,
+            reason: format!("TIME_SYSTEM {scale:?} is not UTC"),
+        }),
+        _ => Ok(()),
+    }
+}
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index 61fed23..6dbb804 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -13,7 +13,7 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, narrow, optional, parse_epoch, parse_norad_id, Omm};
+use super::{check_time_system, format_epoch, narrow, optional, parse_epoch, parse_norad_id, Omm};
 use crate::formats::tle::TleError;
 use crate::formats::tle::Classification;
 
@@ -114,6 +114,8 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         return Err(TleError::OmmUnsupportedTheory(theory.to_string()));
     }
 
+    check_time_system(kv.get("TIME_SYSTEM").map(String::as_str), "XML")?;
+
     let get = |k: &'static str| -> Result<&String, TleError> {
         kv.get(k).ok_or(TleError::OmmMissingField(k))
     };
-- 
2.43.0


From 3ff30671a874acd8ed3311d4d702df9eb02fedbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 077/104] fix: an OMM name holding a line break was written as
 further fields

---
 src/formats/tle/omm/kvn.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index e71bb6a..bda5f4f 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -28,6 +28,17 @@ use crate::formats::tle::Classification;
 /// ```
 pub fn write(omm: &Omm) -> Result<String, TleError> {
     let epoch = format_epoch(omm.epoch)?;
+    for (field, value) in [
+        ("OBJECT_NAME", &omm.object_name),
+        ("OBJECT_ID", &omm.object_id),
+    ] {
+        if value.contains(['\n', '\r']) {
+            return Err(TleError::OmmMalformed {
+                format: "KVN",
+                reason: format!("{field}={value:?} does not fit on one line"),
+            });
+        }
+    }
     Ok(format!(
         "CCSDS_OMM_VERS = 2.0\n\
          CREATION_DATE = {epoch}\n\
-- 
2.43.0


From bdb44ab1e0f83bd444bf89f2ab2dc58f641138b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 078/104] fix: CPR longitude was NaN within 3 degrees of the
 poles when the odd frame is latest

---
 src/formats/adsb/cpr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formats/adsb/cpr.rs b/src/formats/adsb/cpr.rs
index 0b051bf..1e79912 100644
--- a/src/formats/adsb/cpr.rs
+++ b/src/formats/adsb/cpr.rs
@@ -123,7 +123,7 @@ pub fn decode_globally(
         let m = (lon0 as f64 * (nl_lat - 1.0) / 131_072.0 - lon1 as f64 * nl_lat / 131_072.0 + 0.5)
             .floor();
         (
-            dlon * (m.rem_euclid(nl_lat - 1.0) + lon1 as f64 / 131_072.0),
+            dlon * (m.rem_euclid((nl_lat - 1.0).max(1.0)) + lon1 as f64 / 131_072.0),
             lat_o,
         )
     } else {
-- 
2.43.0


From bc88dbe0423a3995ac131ac47b8072a517a6e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 079/104] fix: CPR frames that do not belong together were
 decoded to latitudes beyond the poles

---
 src/formats/adsb/cpr.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/formats/adsb/cpr.rs b/src/formats/adsb/cpr.rs
index 1e79912..512a452 100644
--- a/src/formats/adsb/cpr.rs
+++ b/src/formats/adsb/cpr.rs
@@ -53,6 +53,18 @@ fn nl(lat: f64) -> f64 {
     n.clamp(1.0, 59.0)
 }
 
+/// Refuse latitudes beyond the poles: the frames do not belong together.
+fn require_latitude(lat: f64) -> Result<(), FormatError> {
+    if lat.abs() > 90.0 {
+        return Err(FormatError::located(
+            "ADS-B DO-260B §2.2.3.2.6",
+            FileLocation::default(),
+            format!("decoded latitude {lat} is beyond the poles"),
+        ));
+    }
+    Ok(())
+}
+
 /// Decode a globally-unambiguous geodetic position from an even and odd
 /// CPR frame pair.
 ///
@@ -101,6 +113,8 @@ pub fn decode_globally(
 
     let lat_e = if lat_e >= 270.0 { lat_e - 360.0 } else { lat_e };
     let lat_o = if lat_o >= 270.0 { lat_o - 360.0 } else { lat_o };
+    require_latitude(lat_e)?;
+    require_latitude(lat_o)?;
 
     // NL check: both frames must be in the same latitude band
     if (nl(lat_e) - nl(lat_o)).abs() > 0.5 {
@@ -179,6 +193,8 @@ pub fn decode_locally(
     let lat = d_lat * (j + cpr_lat as f64 / 131_072.0);
     let lat = if lat >= 270.0 { lat - 360.0 } else { lat };
 
+    require_latitude(lat)?;
+
     let nl_val = nl(lat);
     let n_lon = if odd {
         (nl_val - 1.0).max(1.0)
-- 
2.43.0


From d2d73ad7d43bba1178b2e5ca6109426fb7563143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 080/104] fix: local CPR decoding left longitudes west of the
 antimeridian below -180 degrees

---
 src/formats/adsb/cpr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formats/adsb/cpr.rs b/src/formats/adsb/cpr.rs
index 512a452..a25559d 100644
--- a/src/formats/adsb/cpr.rs
+++ b/src/formats/adsb/cpr.rs
@@ -204,7 +204,7 @@ pub fn decode_locally(
     let d_lon = 360.0 / n_lon;
     let m = (ref_lon / d_lon - cpr_lon as f64 / 131_072.0 + 0.5).floor();
     let lon = d_lon * (m + cpr_lon as f64 / 131_072.0);
-    let lon = if lon >= 180.0 { lon - 360.0 } else { lon };
+    let lon = (lon + 180.0).rem_euclid(360.0) - 180.0;
 
     Ok((Degrees::new(lat), Degrees::new(lon)))
 }
-- 
2.43.0


From 39f854680823ad419490b15fef53b24210b87929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 081/104] fix: ADS-B velocities marked as not available were
 decoded as one unit backwards

---
 src/formats/adsb/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/formats/adsb/mod.rs b/src/formats/adsb/mod.rs
index f60d019..48d5fae 100644
--- a/src/formats/adsb/mod.rs
+++ b/src/formats/adsb/mod.rs
@@ -384,9 +384,11 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
     // Sub-types 1 and 2: ground-speed-based velocity
     if sub_type == 1 || sub_type == 2 {
         let sign_ew: f64 = if (me[1] & 0x04) != 0 { -1.0 } else { 1.0 };
-        let v_ew = (((me[1] as u16 & 0x03) << 8) | me[2] as u16) as f64 - 1.0;
+        let ew_raw = ((me[1] as u16 & 0x03) << 8) | me[2] as u16;
+        let v_ew = ew_raw as f64 - 1.0;
         let sign_ns: f64 = if (me[3] & 0x80) != 0 { -1.0 } else { 1.0 };
-        let v_ns = (((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16) as f64 - 1.0;
+        let ns_raw = ((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16;
+        let v_ns = ns_raw as f64 - 1.0;
 
         // Convert knots → m/s (1 knot = 0.514444 m/s)
         let scale: f64 = if sub_type == 2 { 4.0 } else { 1.0 };
@@ -394,7 +396,9 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
         let vns_mps = sign_ns * v_ns * scale * 0.514_444;
 
         let gs = (vew_mps * vew_mps + vns_mps * vns_mps).sqrt();
-        let heading = if v_ew == 0.0 && v_ns == 0.0 {
+        // A raw field of zero means that no information is available.
+        let velocity_known = ew_raw != 0 && ns_raw != 0;
+        let heading = if !velocity_known || (v_ew == 0.0 && v_ns == 0.0) {
             None
         } else {
             let track_deg = vew_mps.atan2(vns_mps).to_degrees().rem_euclid(360.0);
@@ -403,14 +407,14 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
 
         // Vertical rate: bits 30–38 of ME
         let vr_sign: f64 = if (me[4] & 0x08) != 0 { -1.0 } else { 1.0 };
-        let vr_raw = (((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16) as f64 - 1.0;
-        let vr_fpm = vr_sign * vr_raw * 64.0; // feet per minute
+        let vr_raw = ((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16;
+        let vr_fpm = vr_sign * (vr_raw as f64 - 1.0) * 64.0; // feet per minute
         let vr_mps = vr_fpm * 0.00508; // fpm → m/s
 
         return Ok(AirborneVelocityMessage {
             heading,
-            ground_speed_mps: Some(MetersPerSecond::new(gs)),
-            vertical_rate_mps: Some(MetersPerSecond::new(vr_mps)),
+            ground_speed_mps: velocity_known.then(|| MetersPerSecond::new(gs)),
+            vertical_rate_mps: (vr_raw != 0).then(|| MetersPerSecond::new(vr_mps)),
         });
     }
     Err(FormatError::located(
-- 
2.43.0


From 2c522a4afe54c2a03de6d7d4920d21bc1319ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 082/104] fix: terrain mask samples outside 0-360 degrees were
 sorted before being wrapped

---
 src/mission/geometry/terrain_mask.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mission/geometry/terrain_mask.rs b/src/mission/geometry/terrain_mask.rs
index 4d31e4d..1dfcf32 100644
--- a/src/mission/geometry/terrain_mask.rs
+++ b/src/mission/geometry/terrain_mask.rs
@@ -19,12 +19,12 @@ pub struct TerrainMask {
 impl TerrainMask {
     /// Build a terrain mask from `(azimuth, elevation)` samples. Empty
     /// inputs produce a flat zero mask.
-    pub fn new(mut samples: Vec<(Radians, Radians)>) -> Self {
-        samples.sort_by(|a, b| a.0.value().partial_cmp(&b.0.value()).unwrap());
-        let s = samples
+    pub fn new(samples: Vec<(Radians, Radians)>) -> Self {
+        let mut s: Vec<(f64, f64)> = samples
             .into_iter()
             .map(|(a, e)| (a.value().rem_euclid(core::f64::consts::TAU), e.value()))
             .collect();
+        s.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
         Self { samples: s }
     }
 
-- 
2.43.0


From 0a28c70b58029c49c34a93405c738f3dc6dc0e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 083/104] fix: apparent radii of spheres were underestimated,
 hiding eclipses near the occulting body

---
 src/mission/geometry/occultation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mission/geometry/occultation.rs b/src/mission/geometry/occultation.rs
index b7463e6..ea1f569 100644
--- a/src/mission/geometry/occultation.rs
+++ b/src/mission/geometry/occultation.rs
@@ -68,8 +68,12 @@ where
     if nt == 0.0 || no == 0.0 {
         return 0.0;
     }
-    let app_t = (tr / nt).atan(); // angular radius of target
-    let app_o = (or_ / no).atan(); // angular radius of occulter
+    if no <= or_ {
+        // the observer is inside the occulter
+        return 1.0;
+    }
+    let app_t = (tr / nt).min(1.0).asin(); // angular radius of target
+    let app_o = (or_ / no).asin(); // angular radius of occulter
     let cos_sep = d_t.dot(&d_o).value() / (nt * no);
     let sep = cos_sep.clamp(-1.0, 1.0).acos();
     // Apparent target area
-- 
2.43.0


From ed0012e78fd0d78b82514f7fb4c29a5d266c9416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 084/104] fix: bodies beyond the target were taken to occult it

---
 src/mission/geometry/occultation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mission/geometry/occultation.rs b/src/mission/geometry/occultation.rs
index ea1f569..853c087 100644
--- a/src/mission/geometry/occultation.rs
+++ b/src/mission/geometry/occultation.rs
@@ -72,6 +72,10 @@ where
         // the observer is inside the occulter
         return 1.0;
     }
+    if nt * nt <= no * no - or_ * or_ {
+        // the target is nearer than the limb of the occulter
+        return 0.0;
+    }
     let app_t = (tr / nt).min(1.0).asin(); // angular radius of target
     let app_o = (or_ / no).asin(); // angular radius of occulter
     let cos_sep = d_t.dot(&d_o).value() / (nt * no);
-- 
2.43.0


From 8ee44991885c2e9f193d82eea564c0e94d077661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 085/104] fix: elevation of a target at the zenith could be NaN

---
 src/mission/geometry/az_el_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mission/geometry/az_el_range.rs b/src/mission/geometry/az_el_range.rs
index cc5d965..93b727c 100644
--- a/src/mission/geometry/az_el_range.rs
+++ b/src/mission/geometry/az_el_range.rs
@@ -91,7 +91,7 @@ where
     if az < 0.0 {
         az += TAU;
     }
-    let el = u_comp.asin();
+    let el = u_comp.clamp(-1.0, 1.0).asin();
 
     // Range rate = (v_target - v_observer) · LOS direction.
     let rel_v = target_vel - observer_vel;
-- 
2.43.0


From 62bcf91ce9f37de8ac18f92e4f23130f4a65f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 086/104] fix: the GCRS to CIRS rotation tilted the pole the
 wrong way

---
 src/astro/cio.rs                     | 19 ++++++++-----------
 src/astro/earth_rotation_provider.rs |  7 +++----
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/astro/cio.rs b/src/astro/cio.rs
index 9250fb0..cb0736e 100644
--- a/src/astro/cio.rs
+++ b/src/astro/cio.rs
@@ -119,7 +119,7 @@ pub fn cip_cio(jd: JulianDate, dpsi: Radians, deps: Radians) -> CipCio {
 /// (CIRS), using the CIP coordinates (X, Y) and CIO locator s.
 ///
 /// ```text
-/// Q(t) = R₃(−E)·R₂(−d)·R₃(E + s)
+/// Q(t) = R₃(−(E + s))·R₂(d)·R₃(E)
 /// ```
 ///
 /// where `E = atan2(Y, X)`, `d = acos(√(1 − X² − Y²))`.
@@ -136,7 +136,7 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
     let (se, ce) = e.sin_cos();
     let (sd, cd) = d.sin_cos();
 
-    // R₃(-(E+s)) · R₂(-d) · R₃(E)
+    // R₃(-(E+s)) · R₂(d) · R₃(E)
     // Following SOFA's iauC2ixys construction:
     let es = e + s.value();
     let (ses, ces) = es.sin_cos();
@@ -146,25 +146,22 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
         [
             ces * cd * ce + ses * se,
             ces * cd * se - ses * ce,
-            ces * sd,
+            -ces * sd,
         ],
         [
             ses * cd * ce - ces * se,
             ses * cd * se + ces * ce,
-            ses * sd,
+            -ses * sd,
         ],
         [
-            -sd * ce,
-            -sd * se,
+            sd * ce,
+            sd * se,
             cd,
         ],
     ];
 
-    // The matrix above is Q^T (intermediate-to-celestial). We need Q (celestial-to-intermediate).
-    // Actually, SOFA's C2IXYS returns the celestial-to-intermediate matrix directly.
-    // Let's verify: at J2000 with X≈0, Y≈0, s≈0, this should be ≈ identity.
-    // E = atan2(0,0) = 0, d = 0, s = 0.
-    // m[0][0] = 1, m[1][1] = 1, m[2][2] = 1. ✓
+    // Like SOFA's C2IXYS this is the celestial-to-intermediate matrix: its last
+    // row is (X, Y, Z), so that it takes the CIP to the pole of the CIRS.
     Rotation3::from_matrix_unchecked(m)
 }
 
diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index 6d1d709..7545daf 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -111,10 +111,9 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     let w = polar_motion_matrix_from_eop(eop.xp, eop.yp, jd);
     let era = earth_rotation_angle(jd_ut1);
 
-    // NOTE: `cio::gcrs_to_cirs_matrix` and `Rotation3::rz` conventions are
-    // aligned such that this composition matches the SOFA chain for
-    // ITRS -> GCRS in this codebase.
-    let itrs_to_gcrs = q * affn::Rotation3::rz(-era) * w.inverse();
+    // NOTE: `Rotation3::rz` conventions are aligned such that this
+    // composition matches the SOFA chain for ITRS -> GCRS in this codebase.
+    let itrs_to_gcrs = q.inverse() * affn::Rotation3::rz(-era) * w.inverse();
     let icrs_to_j2000 =
         <() as FrameRotationProvider<ICRS, EquatorialMeanJ2000>>::rotation::<Eph, Eop, Nut>(
             jd, ctx,
-- 
2.43.0


From b16c6a7e7848991981260c0f9ff24845796d0853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 087/104] fix: celestial pole offsets were applied on only one
 of the paths to the true equator of date

---
 .../transform/providers/frames_inertial.rs    | 38 +++++--------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/src/coordinates/transform/providers/frames_inertial.rs b/src/coordinates/transform/providers/frames_inertial.rs
index cced261..51deb03 100644
--- a/src/coordinates/transform/providers/frames_inertial.rs
+++ b/src/coordinates/transform/providers/frames_inertial.rs
@@ -165,10 +165,11 @@ impl FrameRotationProvider<EquatorialMeanOfDate, EquatorialTrueOfDate> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        Rotation3::fused_rx_rz_rx(nut.mean_obliquity + nut.deps, nut.dpsi, -nut.mean_obliquity)
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        let eps = precession::mean_obliquity_iau2006(jd);
+        Rotation3::fused_rx_rz_rx(eps + deps, dpsi, -eps)
     }
 }
 
@@ -186,11 +187,10 @@ impl FrameRotationProvider<EquatorialMeanJ2000, EquatorialTrueOfDate> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        precession::precession_nutation_matrix(jd, nut.dpsi, nut.deps)
-            * bias::frame_bias_j2000_to_icrs()
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        precession::precession_nutation_matrix(jd, dpsi, deps) * bias::frame_bias_j2000_to_icrs()
     }
 }
 
@@ -198,12 +198,9 @@ impl FrameRotationProvider<EquatorialTrueOfDate, EquatorialMeanJ2000> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        (precession::precession_nutation_matrix(jd, nut.dpsi, nut.deps)
-            * bias::frame_bias_j2000_to_icrs())
-        .inverse()
+        inverse_rotation::<EquatorialTrueOfDate, EquatorialMeanJ2000, Eph, Eop, Nut>(jd, ctx)
     }
 }
 
@@ -241,22 +238,7 @@ impl FrameRotationProvider<ICRS, EquatorialTrueOfDate> for () {
         jd: JulianDate,
         ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        let mut dpsi = nut.dpsi;
-        let mut deps = nut.deps;
-        let eop = ctx.eop_at_tt(jd);
-        let dx_rad = crate::qtty::Radians::from(eop.dx);
-        let dy_rad = crate::qtty::Radians::from(eop.dy);
-
-        let zero = crate::qtty::Radians::new(0.0);
-        if dx_rad != zero || dy_rad != zero {
-            let sin_eps = nut.mean_obliquity.sin();
-            if sin_eps.abs() > 1e-15 {
-                dpsi += dx_rad / sin_eps;
-            }
-            deps += dy_rad;
-        }
-
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
         precession::precession_nutation_matrix(jd, dpsi, deps)
     }
 }
-- 
2.43.0


From a0d68a175b2cc95d7d2832d471c50179b0899579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 088/104] fix: body-fixed frames were turned away from the pole
 and meridian of the body

---
 src/coordinates/transform/providers/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinates/transform/providers/mod.rs b/src/coordinates/transform/providers/mod.rs
index 5250fc3..30d5706 100644
--- a/src/coordinates/transform/providers/mod.rs
+++ b/src/coordinates/transform/providers/mod.rs
@@ -455,9 +455,9 @@ fn iau_body_fixed_to_icrs(params: &IauRotationParams, jd: JulianDate) -> Rotatio
     let w = params.w(jd).to::<crate::qtty::Radian>();
     let right_angle = crate::qtty::Degrees::new(90.0).to::<crate::qtty::Radian>();
 
-    let z1 = -w;
-    let x = -(right_angle - delta0);
-    let z2 = -(alpha0 + right_angle);
+    let z1 = w;
+    let x = right_angle - delta0;
+    let z2 = alpha0 + right_angle;
     Rotation3::from_euler_zxz(z1, x, z2)
 }
 
-- 
2.43.0


From 14ced4cacb07649fba08e7a9d90ccdbff4619153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:57 +0000
Subject: [PATCH 089/104] fix: galactic and ICRS coordinates were turned the
 wrong way round

---
 src/coordinates/transform/providers/frames_catalog.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinates/transform/providers/frames_catalog.rs b/src/coordinates/transform/providers/frames_catalog.rs
index a01fab2..36d8b6b 100644
--- a/src/coordinates/transform/providers/frames_catalog.rs
+++ b/src/coordinates/transform/providers/frames_catalog.rs
@@ -13,7 +13,7 @@
 use super::*;
 use crate::coordinates::transform::frames::bias;
 
-const GALACTIC_TO_ICRS: Rotation3 = Rotation3::from_matrix_unchecked([
+const ICRS_TO_GALACTIC: Rotation3 = Rotation3::from_matrix_unchecked([
     [
         -0.054_875_560_416_215_4,
         -0.873_437_090_234_885_1,
@@ -37,7 +37,7 @@ impl FrameRotationProvider<Galactic, ICRS> for () {
         _jd: JulianDate,
         _ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        GALACTIC_TO_ICRS
+        ICRS_TO_GALACTIC.inverse()
     }
 }
 
@@ -47,7 +47,7 @@ impl FrameRotationProvider<ICRS, Galactic> for () {
         _jd: JulianDate,
         _ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        GALACTIC_TO_ICRS.inverse()
+        ICRS_TO_GALACTIC
     }
 }
 
-- 
2.43.0


From b474b26e787a73adc04e0e6cb307049bce34f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:57 +0000
Subject: [PATCH 090/104] fix: an element of the galactic rotation matrix was
 off

---
 src/coordinates/transform/providers/frames_catalog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinates/transform/providers/frames_catalog.rs b/src/coordinates/transform/providers/frames_catalog.rs
index 36d8b6b..d2ae6e3 100644
--- a/src/coordinates/transform/providers/frames_catalog.rs
+++ b/src/coordinates/transform/providers/frames_catalog.rs
@@ -22,7 +22,7 @@ const ICRS_TO_GALACTIC: Rotation3 = Rotation3::from_matrix_unchecked([
     [
         0.494_109_427_875_583_7,
         -0.444_829_629_960_011_2,
-        0.746_982_244_580_286_6,
+        0.746_982_244_497_218_9,
     ],
     [
         -0.867_666_149_019_004_7,
-- 
2.43.0


From 884a673ab828297ced7f795ad6c612b8798128b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 091/104] fix: transforms to and from body centres ignored the
 given ephemeris

---
 .../centers/position/to_bodycentric.rs        | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/coordinates/transform/centers/position/to_bodycentric.rs b/src/coordinates/transform/centers/position/to_bodycentric.rs
index 49a1f5b..bbca6ec 100644
--- a/src/coordinates/transform/centers/position/to_bodycentric.rs
+++ b/src/coordinates/transform/centers/position/to_bodycentric.rs
@@ -66,7 +66,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -85,7 +85,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -94,7 +95,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
@@ -123,7 +125,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -142,7 +144,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> = body_geo_ecl.to_center(jd);
+                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -152,7 +155,7 @@ where
                     body_ecliptic_au.z(),
                 );
                 let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
-                    body_bary_ecl.to_center(jd);
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
         };
@@ -181,7 +184,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -200,7 +203,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_helio_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
             OrbitReferenceCenter::Geocentric => {
@@ -209,7 +213,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_geo_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
         };
@@ -238,7 +243,7 @@ where
         &self,
         _params: (),
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Geocentric, F, U> {
         let body_params = *self.center_params();
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
@@ -258,7 +263,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -267,7 +273,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
-- 
2.43.0


From 8a5862ead9008ef7903392b44b2147452515b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 092/104] fix: the velocity of a topocentric observer ignored
 the given ephemeris

---
 src/coordinates/observation/observer_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/observation/observer_state.rs b/src/coordinates/observation/observer_state.rs
index 000c8c6..4493818 100644
--- a/src/coordinates/observation/observer_state.rs
+++ b/src/coordinates/observation/observer_state.rs
@@ -123,7 +123,7 @@ impl ObserverState {
     }
 
     /// Context-aware topocentric observer state.
-    pub fn topocentric_with_ctx<Eph, Eop: EopProvider, Nut: NutationModel>(
+    pub fn topocentric_with_ctx<Eph: Ephemeris, Eop: EopProvider, Nut: NutationModel>(
         site: &Geodetic<ECEF>,
         jd: JulianDate,
         ctx: &AstroContext<Eph, Eop>,
@@ -132,7 +132,7 @@ impl ObserverState {
         use crate::qtty::{unit, Meter, Seconds};
 
         // Annual (orbital) component: barycentric Earth velocity.
-        let vel_ecl = DefaultEphemeris::earth_barycentric_velocity(jd);
+        let vel_ecl = Eph::earth_barycentric_velocity(jd);
 
         // Transform to equatorial frame
         let mut velocity: Velocity<EquatorialMeanJ2000, AuPerDay> = vel_ecl.to_frame();
-- 
2.43.0


From b39b9855d73f36a1a667ba85af295f485c517b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 093/104] fix: the Earth orientation given for a site was
 dropped when no bundle is loaded

---
 src/astro/earth_rotation_provider.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index 7545daf..632db6a 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -37,7 +37,7 @@
 //! * SOFA Earth-rotation cookbook (`iauC2t06a` and friends)
 
 use crate::astro::cio;
-use crate::astro::earth_rotation::{jd_ut1_from_tt_eop, try_jd_utc_from_tt};
+use crate::astro::earth_rotation::jd_ut1_from_tt_eop;
 use crate::astro::eop::{EopProvider, EopValues};
 use crate::astro::era::earth_rotation_angle;
 use crate::astro::nutation::NutationModel;
@@ -99,10 +99,7 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     jd: JulianDate,
     ctx: &AstroContext<Eph, Eop>,
 ) -> affn::Rotation3 {
-    let eop = match try_jd_utc_from_tt(jd) {
-        Ok(jd_utc) => ctx.eop_at(jd_utc),
-        Err(_) => EopValues::default(),
-    };
+    let eop = ctx.eop_at_tt(jd);
     let jd_ut1 = jd_ut1_from_tt_eop(jd, &eop);
 
     let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, eop);
-- 
2.43.0


From 7f7ec5e856366ddd06f0416d2b3804dc5f5a17f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 094/104] fix: horizontal coordinates were not numbers at the
 zenith, at the poles and at the observer

---
 .../transform/frames/to_horizontal.rs         | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 9e40394..738f9e1 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -85,7 +85,10 @@ fn equatorial_to_horizontal_angles(
     let cos_ha = ha.cos();
 
     // Use precomputed sin/cos of latitude
-    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha).asin();
+    // (rounding may carry the sine past one near the zenith and the nadir)
+    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha)
+        .clamp(-1.0, 1.0)
+        .asin();
     let az_val = (-cos_dec * ha.sin())
         .atan2(sin_dec * site_trig.cos_lat - cos_dec * cos_ha * site_trig.sin_lat);
 
@@ -118,13 +121,11 @@ fn horizontal_to_equatorial_angles(
 
     // Calculate declination
     let sin_dec = sin_alt * site_trig.sin_lat + cos_alt * site_trig.cos_lat * az.cos();
-    let dec_val = sin_dec.asin();
+    let dec_val = sin_dec.clamp(-1.0, 1.0).asin();
 
-    // Calculate hour angle
-    let cos_ha =
-        (sin_alt - site_trig.sin_lat * dec_val.sin()) / (site_trig.cos_lat * dec_val.cos());
-    let sin_ha = -cos_alt * az.sin() / dec_val.cos();
-    let ha_val = sin_ha.atan2(cos_ha);
+    // Calculate hour angle (without dividing: cos(lat) and cos(dec) vanish at the poles)
+    let ha_val = (-cos_alt * az.sin())
+        .atan2(sin_alt * site_trig.cos_lat - cos_alt * az.cos() * site_trig.sin_lat);
 
     // Convert hour angle to right ascension
     let gmst = gmst_from_tt(jd);
@@ -158,7 +159,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, Horizontal, U>>
             Quantity::<Radian>::new(0.0)
         };
 
-        let ra: Radians = Quantity::<Radian>::new((self.y() / r).atan2(self.x() / r));
+        let ra: Radians = Quantity::<Radian>::new(self.y().value().atan2(self.x().value()));
 
         let site_trig = SiteTrig::from_site(site);
         let (alt, az) =
@@ -198,7 +199,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, EquatorialMeanOfD
             Quantity::<Radian>::new(0.0)
         };
         // atan2 on Quantity<U> values - extract raw values for atan2
-        let az: Radians = Quantity::<Radian>::new((-self.y() / r).atan2(self.x() / r));
+        let az: Radians = Quantity::<Radian>::new((-self.y().value()).atan2(self.x().value()));
 
         let site_trig = SiteTrig::from_site(site);
         let (ra, dec) = horizontal_to_equatorial_angles(alt, az, site, &site_trig, jd);
-- 
2.43.0


From 0bb774c810b2cb13520dd6fb1bba7169a61ffb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 095/104] fix: positions turned to the horizontal frame had
 their azimuth counted westwards

---
 src/coordinates/transform/frames/to_horizontal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 738f9e1..cec88e2 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -166,10 +166,10 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, Horizontal, U>>
             equatorial_to_horizontal_angles(ra.to::<Deg>(), dec.to::<Deg>(), site, &site_trig, jd);
 
         // Convert back to Cartesian in horizontal frame
-        // In horizontal: x = North, y = West, z = Zenith
+        // In horizontal: x = North, y = East, z = Zenith (azimuth runs from x to y)
         // Trig functions return f64, multiply by Quantity<U> to get Quantity<U>
         let new_x = r * alt.cos() * az.cos();
-        let new_y = -r * alt.cos() * az.sin(); // negative for East-positive azimuth
+        let new_y = r * alt.cos() * az.sin();
         let new_z = r * alt.sin();
 
         cartesian::Position::from_array(*site, [new_x, new_y, new_z])
@@ -199,7 +199,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, EquatorialMeanOfD
             Quantity::<Radian>::new(0.0)
         };
         // atan2 on Quantity<U> values - extract raw values for atan2
-        let az: Radians = Quantity::<Radian>::new((-self.y().value()).atan2(self.x().value()));
+        let az: Radians = Quantity::<Radian>::new(self.y().value().atan2(self.x().value()));
 
         let site_trig = SiteTrig::from_site(site);
         let (ra, dec) = horizontal_to_equatorial_angles(alt, az, site, &site_trig, jd);
-- 
2.43.0


From 4a94476da9c1fe4bc4ef5ec74d2a5397d09682d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 096/104] fix: the altitude of a target at the zenith was not a
 number

---
 src/event/horizontal.rs               | 6 +++---
 src/event/lunar/moon_cache.rs         | 2 +-
 src/event/stellar/altitude_periods.rs | 2 +-
 src/event/stellar/star_equations.rs   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/event/horizontal.rs b/src/event/horizontal.rs
index 702de3b..5646ec1 100644
--- a/src/event/horizontal.rs
+++ b/src/event/horizontal.rs
@@ -207,7 +207,7 @@ where
 
     // Altitude: sin(alt) = sin(dec)·sin(lat) + cos(dec)·cos(lat)·cos(HA)
     let sin_alt = dec_rad.sin() * lat.sin() + dec_rad.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     // Azimuth: tan(az) = -sin(HA) / (cos(lat)·tan(dec) - sin(lat)·cos(HA))
     let az_rad = (-dec_rad.cos() * ha.sin())
@@ -273,7 +273,7 @@ pub fn star_horizontal_with_policy(
 
     // True-of-date RA/Dec
     let ra_tod = Radians::new(y_t.atan2(x_t));
-    let dec_tod = Radians::new(z_t.asin());
+    let dec_tod = Radians::new(z_t.clamp(-1.0, 1.0).asin());
 
     // True-of-date RA/Dec requires apparent sidereal time (GAST).
     let ctx: AstroContext = AstroContext::default();
@@ -286,7 +286,7 @@ pub fn star_horizontal_with_policy(
     // Equatorial → horizontal
     let lat = site.lat.to::<Radian>();
     let sin_alt = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     let az_rad = (-dec_tod.cos() * ha.sin())
         .atan2(dec_tod.sin() * lat.cos() - dec_tod.cos() * ha.cos() * lat.sin());
diff --git a/src/event/lunar/moon_cache.rs b/src/event/lunar/moon_cache.rs
index ff16cff..a0d966c 100644
--- a/src/event/lunar/moon_cache.rs
+++ b/src/event/lunar/moon_cache.rs
@@ -470,7 +470,7 @@ impl MoonAltitudeContext {
 
         let sin_alt = dec_rad.sin() * self.lat.sin() + dec_rad.cos() * self.lat.cos() * ha.cos();
 
-        Quantity::<Radian>::new(sin_alt.asin())
+        Quantity::<Radian>::new(sin_alt.clamp(-1.0, 1.0).asin())
     }
 }
 
diff --git a/src/event/stellar/altitude_periods.rs b/src/event/stellar/altitude_periods.rs
index c5c6550..410b7e3 100644
--- a/src/event/stellar/altitude_periods.rs
+++ b/src/event/stellar/altitude_periods.rs
@@ -136,7 +136,7 @@ pub(crate) fn fixed_star_altitude_rad_with_policy(
     // Equatorial → horizontal altitude
     let lat = site.lat.to::<Radian>().value();
     let sin_alt = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
-    crate::qtty::Radians::new(sin_alt.asin())
+    crate::qtty::Radians::new(sin_alt.clamp(-1.0, 1.0).asin())
 }
 
 // =============================================================================
diff --git a/src/event/stellar/star_equations.rs b/src/event/stellar/star_equations.rs
index 207cf9e..163043b 100644
--- a/src/event/stellar/star_equations.rs
+++ b/src/event/stellar/star_equations.rs
@@ -132,7 +132,7 @@ impl StarAltitudeParams {
         let [x_t, y_t, z_t] = npb.apply_array([x0, y0, z0]);
 
         let ra_corrected = Degrees::new(y_t.atan2(x_t).to_degrees());
-        let dec = Radians::new(z_t.asin());
+        let dec = Radians::new(z_t.clamp(-1.0, 1.0).asin());
 
         // Precompute trig constants
         let lat_rad = site.lat.to::<Radian>();
-- 
2.43.0


From 9c3a25d605bff109d5cc368e92df9af1eec7df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:38 +0000
Subject: [PATCH 097/104] fix: the frame bias was applied twice on the way from
 J2000 to apparent places

---
 src/event/horizontal.rs          | 6 +++++-
 src/event/lunar/moon_cache.rs    | 9 ++++++---
 src/event/solar/sun_equations.rs | 2 +-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/event/horizontal.rs b/src/event/horizontal.rs
index 5646ec1..b2d64e1 100644
--- a/src/event/horizontal.rs
+++ b/src/event/horizontal.rs
@@ -55,6 +55,7 @@ use crate::astro::sidereal::gast_iau2006;
 use crate::coordinates::centers::Geodetic;
 use crate::coordinates::frames::ECEF;
 use crate::coordinates::transform::centers::position::to_topocentric::to_topocentric_with;
+use crate::coordinates::transform::providers::frame_rotation_with;
 use crate::coordinates::transform::{AstroContext, TransformContext};
 use crate::coordinates::{cartesian, centers::*, frames, spherical};
 use crate::qtty::{AstronomicalUnits, Degree, LengthUnit, Meter, Quantity, Radian, Radians};
@@ -105,7 +106,10 @@ where
     let topo_cart_j2000 = to_topocentric_with(geo_cart_j2000, site, jd, ctx);
 
     // 2) Rotate J2000 → mean-of-date using IAU 2006 precession
-    let rot_prec = precession::precession_matrix_iau2006(jd);
+    let rot_prec =
+        frame_rotation_with::<frames::EquatorialMeanJ2000, frames::EquatorialMeanOfDate, _>(
+            jd, ctx,
+        );
     let [x_m, y_m, z_m] = rot_prec
         * [
             topo_cart_j2000.x(),
diff --git a/src/event/lunar/moon_cache.rs b/src/event/lunar/moon_cache.rs
index a0d966c..1dcbcb2 100644
--- a/src/event/lunar/moon_cache.rs
+++ b/src/event/lunar/moon_cache.rs
@@ -49,11 +49,11 @@
 use crate::astro::earth_rotation::jd_ut1_from_tt_eop;
 use crate::astro::earth_rotation_provider::itrs_to_equatorial_mean_j2000_rotation;
 use crate::astro::nutation::nutation_iau2000b;
-use crate::astro::precession::precession_matrix_iau2006;
 use crate::astro::sidereal::gast_iau2006;
 use crate::coordinates::centers::Geodetic;
-use crate::coordinates::frames::ECEF;
+use crate::coordinates::frames::{self, ECEF};
 use crate::coordinates::transform::context::{DefaultEop, DefaultEphemeris, DefaultNutationModel};
+use crate::coordinates::transform::providers::frame_rotation_with;
 use crate::coordinates::transform::AstroContext;
 use crate::ephemeris::Ephemeris;
 use crate::qtty::*;
@@ -441,7 +441,10 @@ impl MoonAltitudeContext {
         // ---------------------------------------------------------------
         // 4. Precession: J2000 → mean-of-date
         // ---------------------------------------------------------------
-        let rot_prec = precession_matrix_iau2006(mjd.to::<crate::JD>());
+        let rot_prec =
+            frame_rotation_with::<frames::EquatorialMeanJ2000, frames::EquatorialMeanOfDate, _>(
+                jd, &ctx,
+            );
         let [x_mod, y_mod, z_mod] =
             rot_prec.apply_array([x_topo.value(), y_topo.value(), z_topo.value()]);
 
diff --git a/src/event/solar/sun_equations.rs b/src/event/solar/sun_equations.rs
index 753e755..ce72ff9 100644
--- a/src/event/solar/sun_equations.rs
+++ b/src/event/solar/sun_equations.rs
@@ -88,7 +88,7 @@ impl Sun {
         // Doing both in one `transform` call would apply the ecliptic shift vector into the
         // already-rotated equatorial frame, yielding a near-zero Dec instead of ~-23°.
         let geo_ecl: cartesian::position::EclipticMeanJ2000<U, Geocentric> = helio.transform(jd);
-        let geo_cart: cartesian::position::EquatorialMeanJ2000<U, Geocentric> = geo_ecl.to_frame();
+        let geo_cart: cartesian::position::ICRS<U, Geocentric> = geo_ecl.to_frame();
 
         // Apply full IAU 2006/2000B NPB matrix (GCRS → true equator/equinox of date)
         let nut = nutation_iau2000b(jd);
-- 
2.43.0


From a4f12cd9bec03f181b0860f0b14f845e826c9f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 098/104] fix: the radial velocity of a star was taken per
 Gregorian year but carried on for Julian years

---
 src/astro/proper_motion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astro/proper_motion.rs b/src/astro/proper_motion.rs
index 5a3f9bf..cf62b71 100644
--- a/src/astro/proper_motion.rs
+++ b/src/astro/proper_motion.rs
@@ -331,10 +331,10 @@ pub fn propagate_space_motion(
     let v_alpha_au_yr = pm_ra_rad_yr * r_au * cos_d;
     let v_delta_au_yr = pm_dec_rad_yr * r_au;
 
-    // Radial velocity in AU/yr (positive = away).
+    // Radial velocity in AU per Julian year (positive = away).
     let v_r_au_yr = motion
         .radial_velocity
-        .to::<Per<AstronomicalUnit, Year>>()
+        .to::<Per<AstronomicalUnit, JulianYear>>()
         .value();
 
     // BCRS velocity vector in AU/yr.
-- 
2.43.0


From 709f8c07bfe272cf2282bf4945757345919ef04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 099/104] fix: stars were moved from J2000 whatever the epoch
 of their position

---
 src/astro/proper_motion.rs |  2 +-
 src/bodies/stars.rs        | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/astro/proper_motion.rs b/src/astro/proper_motion.rs
index cf62b71..d08c44c 100644
--- a/src/astro/proper_motion.rs
+++ b/src/astro/proper_motion.rs
@@ -186,7 +186,7 @@ impl ProperMotion {
 /// `µα⋆` is used at/near the poles.
 ///
 /// Assumes motion is linear (valid for most stars over <1000 year timescales).
-fn set_proper_motion_since_epoch<U: LengthUnit>(
+pub(crate) fn set_proper_motion_since_epoch<U: LengthUnit>(
     mean_position: position::EquatorialMeanJ2000<U>,
     proper_motion: ProperMotion,
     jd: JulianDate,
diff --git a/src/bodies/stars.rs b/src/bodies/stars.rs
index 28141e2..4bad36e 100644
--- a/src/bodies/stars.rs
+++ b/src/bodies/stars.rs
@@ -42,7 +42,7 @@
 //!   *A&A* 616, A9. doi:10.1051/0004-6361/201832964
 
 use crate::astro::proper_motion::{
-    propagate_space_motion_since_j2000, ProperMotionError, StarSpaceMotion,
+    propagate_space_motion, set_proper_motion_since_epoch, ProperMotionError, StarSpaceMotion,
 };
 use crate::coordinates::spherical::direction;
 use crate::coordinates::spherical::position;
@@ -146,13 +146,13 @@ impl<'a> Star<'a> {
     ///
     /// When the catalog provides parallax **and** radial velocity, this
     /// performs a full 6D space-motion propagation using
-    /// [`propagate_space_motion_since_j2000`], honouring the parallax-aware
-    /// secular acceleration of the proper motion.
+    /// [`propagate_space_motion`] from the epoch of the catalog position,
+    /// honouring the parallax-aware secular acceleration of the proper motion.
     ///
     /// When either parallax or radial velocity is missing, it falls back to
     /// the transverse-only linear propagation in
-    /// [`set_proper_motion_since_j2000`](crate::astro::proper_motion::set_proper_motion_since_j2000),
-    /// which is appropriate for the vast majority of catalog stars over
+    /// [`set_proper_motion_since_j2000`](crate::astro::proper_motion::set_proper_motion_since_j2000)
+    /// (from the same epoch), which is appropriate for the vast majority of catalog stars over
     /// human time horizons but can drift several mas/century for fast
     /// nearby objects.
     ///
@@ -170,6 +170,7 @@ impl<'a> Star<'a> {
         // when proper-motion-only is used, distance is preserved on the AU
         // axis to keep the typed signature happy.
         let pos_ly = self.coordinate.get_position();
+        let epoch = *self.coordinate.get_time();
         let r_au = pos_ly.distance.to::<AstronomicalUnit>();
         let pos_au = position::EquatorialMeanJ2000::<AstronomicalUnit>::new(
             pos_ly.ra(),
@@ -204,10 +205,10 @@ impl<'a> Star<'a> {
                     parallax,
                     radial_velocity: rv,
                 };
-                propagate_space_motion_since_j2000(pos_au, motion, jd)
+                propagate_space_motion(pos_au, motion, jd, epoch)
             }
             (_, _, Some(pm)) => {
-                crate::astro::proper_motion::set_proper_motion_since_j2000(pos_au, pm.clone(), jd)
+                set_proper_motion_since_epoch(pos_au, pm.clone(), jd, epoch)
             }
             (_, _, None) => Ok(pos_au),
         }
-- 
2.43.0


From 1cb390fc7bf6a16ef5a1772521409ff346c450c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 100/104] fix: the gravity field was turned with the Earth by
 Terrestrial Time

---
 src/astro/dynamics/forces/geopotential.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/astro/dynamics/forces/geopotential.rs b/src/astro/dynamics/forces/geopotential.rs
index 51fef18..204be50 100644
--- a/src/astro/dynamics/forces/geopotential.rs
+++ b/src/astro/dynamics/forces/geopotential.rs
@@ -9,6 +9,7 @@ use principia::{AccelerationModel, PrincipiaError};
 use crate::astro::dynamics::context::DynamicsContext;
 use crate::astro::dynamics::errors::DynamicsError;
 use crate::astro::dynamics::state::{Acceleration, AccelerationUnit, OrbitState};
+use crate::astro::earth_rotation::jd_ut1_from_tt;
 use crate::astro::era::earth_rotation_angle;
 use crate::coordinates::centers::Geocentric;
 use crate::coordinates::frames::GCRS;
@@ -61,7 +62,7 @@ impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for Geopotential {
             .require_gravity_field()
             .map_err(DynamicsError::into_principia)?;
         let (pos_kernel, era_sin_cos) = if self.order > 0 {
-            let era = earth_rotation_angle(s.epoch.to::<JD>());
+            let era = earth_rotation_angle(jd_ut1_from_tt(s.epoch.to::<JD>()));
             let (sin_t, cos_t) = era.value().sin_cos();
             let x = s.position.x().value();
             let y = s.position.y().value();
-- 
2.43.0


From 1caf96c4fdd99a60724da95e9b949f3638a8dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 101/104] fix: an orbit was prepared whatever its elements

---
 src/astro/orbit.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/astro/orbit.rs b/src/astro/orbit.rs
index e4f85c6..9e048f9 100644
--- a/src/astro/orbit.rs
+++ b/src/astro/orbit.rs
@@ -347,9 +347,16 @@ impl TryFrom<KeplerianOrbit> for PreparedOrbit {
     type Error = ConicError;
 
     fn try_from(orbit: KeplerianOrbit) -> Result<Self, Self::Error> {
-        // KeplerianOrbit::try_new already validates; orbits produced by `new`
-        // (const, body constants) are trusted. Build directly.
-        Ok(Self::from_validated(orbit))
+        // `KeplerianOrbit::new` does not validate, so neither do its fields here.
+        Self::try_from_elements(
+            orbit.shape().semi_major_axis(),
+            orbit.shape().eccentricity(),
+            orbit.orientation().inclination(),
+            orbit.orientation().longitude_of_ascending_node(),
+            orbit.orientation().argument_of_periapsis(),
+            orbit.mean_anomaly_at_epoch,
+            orbit.epoch,
+        )
     }
 }
 
-- 
2.43.0


From c3818afaf96b9410136a4645a42130f071b5df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 102/104] fix: an orbit of negative inclination was turned by
 half a revolution

---
 src/astro/conic.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/astro/conic.rs b/src/astro/conic.rs
index 336de03..d019c89 100644
--- a/src/astro/conic.rs
+++ b/src/astro/conic.rs
@@ -150,6 +150,24 @@ pub(crate) fn map_validation_error(error: ConicValidationError) -> ConicError {
     }
 }
 
+/// Validates and normalizes the orientation of an orbit.
+///
+/// An inclination beyond 180° is folded back by [`ConicOrientation::try_new`], which turns the
+/// node by 180° but leaves the argument of periapsis, from the opposite node then, to be turned.
+fn orient(
+    inclination: Degrees,
+    longitude_of_ascending_node: Degrees,
+    argument_of_periapsis: Degrees,
+) -> Result<ConicOrientation<EclipticMeanJ2000>, ConicError> {
+    let folded = inclination.rem_euclid(360.0) > Degrees::new(180.0);
+    let turn = Degrees::new(if folded { 180.0 } else { 0.0 });
+    Ok(ConicOrientation::try_new(
+        inclination,
+        longitude_of_ascending_node,
+        argument_of_periapsis + turn,
+    )?)
+}
+
 pub(crate) fn elliptic_geometry_from_sma<U: LengthUnit>(
     semi_major_axis: Quantity<U>,
     eccentricity: f64,
@@ -164,7 +182,7 @@ pub(crate) fn elliptic_geometry_from_sma<U: LengthUnit>(
             return Err(ConicError::HyperbolicNotSupported);
         }
     };
-    let orientation = ConicOrientation::try_new(
+    let orientation = orient(
         inclination,
         longitude_of_ascending_node,
         argument_of_periapsis,
@@ -214,7 +232,7 @@ impl ConicOrbit {
         if eccentricity == 1.0 {
             return Err(ConicError::ParabolicUnsupported);
         }
-        let orientation = ConicOrientation::try_new(
+        let orientation = orient(
             inclination,
             longitude_of_ascending_node,
             argument_of_periapsis,
-- 
2.43.0


From 73a6a63836f1633f1a9e6d14df6fd2f6282acc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:18 +0000
Subject: [PATCH 103/104] fix: a fixed step, once shortened, stayed short

---
 src/astro/dynamics/propagation/propagator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/astro/dynamics/propagation/propagator.rs b/src/astro/dynamics/propagation/propagator.rs
index 26cd4bc..35266c5 100644
--- a/src/astro/dynamics/propagation/propagator.rs
+++ b/src/astro/dynamics/propagation/propagator.rs
@@ -93,7 +93,9 @@ where
             Second::new(h_try.value().signum() * max_h)
         };
         let new_state = rk4_step(model, state, h, ctx)?;
-        Ok((new_state, h, h, 0))
+        // A step shortened to end on an output time must not shorten those after it.
+        let h_next = Second::new(h_try.value().signum() * max_h);
+        Ok((new_state, h, h_next, 0))
     }
 }
 
-- 
2.43.0


From 10ee08f1c4003fea6dcb13c8353d7b0d5f9ce54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 104/104] fix: rises and sets less than three minutes apart
 were lost

---
 src/event/search/crossings.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 26b6fea..c17dfb0 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -240,7 +240,9 @@ where
     }
 
     let mut segment_crossings = Vec::new();
-    for root_x in roots {
+    for &root_x in &roots {
+        // The sides of a crossing are told apart short of the crossings next to it.
+        let reach_days = nearest_other(&roots, root_x) * 0.25 * segment.span_days();
         let slope = derivative.evaluate(root_x).abs();
         if slope < search.opts.chebyshev.min_slope {
             fallback_segment(search, segment);
@@ -252,6 +254,7 @@ where
             segment,
             root_x,
             slope,
+            reach_days,
             search.signal,
             search.threshold_sin,
             search.opts,
@@ -266,6 +269,15 @@ where
     search.out.extend(segment_crossings);
 }
 
+/// Distance from a root to the closest of the others, in unit time.
+fn nearest_other(roots: &[f64], root_x: f64) -> f64 {
+    roots
+        .iter()
+        .map(|r| (r - root_x).abs())
+        .filter(|gap| *gap > 0.0)
+        .fold(f64::INFINITY, f64::min)
+}
+
 /// Add the roots that the polynomial solver dropped: between two consecutive
 /// turning points, a sign change must have its root.
 fn add_missed_roots(
@@ -369,6 +381,7 @@ fn validate_candidate<F>(
     segment: Segment,
     root_x: f64,
     slope: f64,
+    reach_days: f64,
     signal: &F,
     threshold_sin: f64,
     opts: InternalSearchConfig,
@@ -393,7 +406,15 @@ where
         return None;
     }
 
-    let direction = classify_direction(period, refined, signal, threshold_sin, opts, diagnostics)?;
+    let direction = classify_direction(
+        period,
+        refined,
+        reach_days,
+        signal,
+        threshold_sin,
+        opts,
+        diagnostics,
+    )?;
     Some(LabeledCrossing {
         t: refined,
         direction,
@@ -463,6 +484,7 @@ where
 fn classify_direction<F>(
     period: Interval<Mjd>,
     t: Mjd,
+    reach_days: f64,
     signal: &F,
     threshold_sin: f64,
     opts: InternalSearchConfig,
@@ -472,7 +494,7 @@ where
     F: Fn(Mjd) -> f64,
 {
     let margin = opts.chebyshev.refine_margin.value();
-    let probe = margin.clamp(1e-6, 1e-3);
+    let probe = margin.min(reach_days).clamp(1e-6, 1e-3);
     let t_days = mjd_days(t);
     let start = mjd_days(period.start);
     let end = mjd_days(period.end);
-- 
2.43.0

