From 9b1658cd61d724b16f3bfe31420b2f9e0c711007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 01/24] fix: don't link the ends of a non-closed path to
 unrelated segments

---
 src/segments.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segments.rs b/src/segments.rs
index 1fdb66b..20194d9 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -386,6 +386,9 @@ impl Segments {
                         start_point,
                         end_point,
                     });
+                } else {
+                    self.contour_prev[start_idx] = None;
+                    self.contour_next[end_idx] = None;
                 }
             }
         }
-- 
2.43.0


From e57ebf19984d28672f13ba77694368d292db29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 02/24] fix: leave the arena unchanged when add_bez_path fails

---
 src/segments.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/segments.rs b/src/segments.rs
index 20194d9..8ecfde8 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -296,11 +296,15 @@ impl Segments {
     /// Add a Bézier path to this arena.
     ///
     /// The path can contain multiple subpaths, and each of them must be closed.
+    /// If any of them isn't, this returns an error and leaves the arena unchanged.
     pub fn add_bez_path(&mut self, p: &BezPath) -> Result<(), NonClosedPath> {
         let old_len = self.segs.len();
-        self.add_path_without_updating_enter_exit(p, true)?;
+        let ret = self.add_path_without_updating_enter_exit(p, true);
+        if ret.is_err() {
+            self.truncate(old_len);
+        }
         self.update_enter_exit(old_len);
-        Ok(())
+        ret
     }
 
     /// Add a Bézier path to this arena.
@@ -313,6 +317,17 @@ impl Segments {
         Ok(())
     }
 
+    /// Removes all segments from `len` on. They must not have been added to
+    /// the entrances and exits yet.
+    fn truncate(&mut self, len: usize) {
+        self.segs.inner.truncate(len);
+        self.contour_prev.inner.truncate(len);
+        self.contour_next.inner.truncate(len);
+        self.orientation.inner.truncate(len);
+        self.split_from_predecessor.inner.truncate(len);
+        self.input_segs.inner.truncate(len);
+    }
+
     pub(crate) fn add_path_without_updating_enter_exit(
         &mut self,
         p: &BezPath,
-- 
2.43.0


From ce02af5bb6e299803873b3e8ff5672e68c9e70f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 03/24] fix: reliably reject NaN and infinite coordinates in
 binary_op

---
 src/lib.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 047f395..34e0545 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,18 +96,28 @@ pub fn binary_op(
     fill_rule: FillRule,
     op: BinaryOp,
 ) -> Result<topology::Contours, Error> {
-    // Find the extremal values, to figure out how much precision we can support.
-    let bbox = set_a.bounding_box().union(set_b.bounding_box());
-    let min = bbox.min_x().min(bbox.min_y());
-    let max = bbox.max_x().max(bbox.max_y());
-    if min.is_infinite() || max.is_infinite() {
+    // We check the control points one by one, because neither NaNs nor infinities
+    // reliably propagate to the bounding box.
+    let points = || {
+        set_a.iter().chain(set_b.iter()).flat_map(|el| match el {
+            kurbo::PathEl::MoveTo(p) | kurbo::PathEl::LineTo(p) => [p, p, p],
+            kurbo::PathEl::QuadTo(p0, p1) => [p0, p0, p1],
+            kurbo::PathEl::CurveTo(p0, p1, p2) => [p0, p1, p2],
+            kurbo::PathEl::ClosePath => [kurbo::Point::ZERO; 3],
+        })
+    };
+    if points().any(|p| p.x.is_infinite() || p.y.is_infinite()) {
         return Err(Error::Infinity);
     }
-    // If there was any NaN in the input, it should have propagated to the min and max.
-    if min.is_nan() || max.is_nan() {
+    if points().any(|p| p.is_nan()) {
         return Err(Error::NaN);
     }
 
+    // Find the extremal values, to figure out how much precision we can support.
+    let bbox = set_a.bounding_box().union(set_b.bounding_box());
+    let min = bbox.min_x().min(bbox.min_y());
+    let max = bbox.max_x().max(bbox.max_y());
+
     // TODO: we did some analysis for error bounds in the case of polylines.
     // Think more about what makes sense for curves.
     let m_2 = min.abs().max(max.abs());
-- 
2.43.0


From 20219d79d88d70a76f3ca35757ccfc399c3d1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 04/24] fix: don't miss intersections when several segments are
 removed at once

---
 src/sweep/sweep_line.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index ac7baa7..1db8f63 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -526,9 +526,15 @@ impl<'segs> Sweeper<'segs> {
     }
 
     fn scan_for_removal(&mut self, pos: usize) {
-        if pos > 0 {
-            self.intersection_scan_right(pos - 1);
-            self.intersection_scan_left(pos - 1);
+        // Intersection scans ignore segments that end at the current height, so
+        // we need to start scanning at the closest segment that doesn't.
+        let y = self.y;
+        let start = (0..pos)
+            .rev()
+            .find(|&i| self.segments[self.line.seg(i)].end().y > y);
+        if let Some(start) = start {
+            self.intersection_scan_right(start);
+            self.intersection_scan_left(start);
         }
     }
 
-- 
2.43.0


From 047753838260fae7937115fa22586149b4501a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 05/24] fix: keep the interval before a direct left-right
 transition

---
 src/curve/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 4c8b2cb..aae454e 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -112,8 +112,9 @@ impl CurveOrder {
                     // What we do is insert a zero-height "ish" interval. Then
                     // adding y-slop will turn it into a taller interval.
                     debug_assert!(end >= last.end);
+                    let ish_end = last.end;
                     self.cmps.push(CurveOrderEntry {
-                        end,
+                        end: ish_end,
                         order: Order::Ish,
                     });
                     self.cmps.push(CurveOrderEntry { end, order });
-- 
2.43.0


From 20aa3019e7ca89c97dd907721436b41b77bb3c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 06/24] fix: only merge the copied part of an output segment

---
 src/topology.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index f0d91f7..e862ef7 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1078,7 +1078,16 @@ impl<W: WindingNumber> Topology<W> {
             seg.is_first_half() == self.segments.positively_oriented(orig_idx);
 
         let start_y = self.point(seg).y;
-        let end_y = self.point(seg.other_half()).y;
+        // Only the copied part of the output segment can be merged, so that's
+        // where the merge ends.
+        let copied_end = if seg.is_first_half() {
+            1
+        } else {
+            pos.path.elements().len() - 2
+        };
+        let end_y = pos.path.elements()[copied_end]
+            .end_point()
+            .map_or(self.point(seg.other_half()).y, |p| p.y);
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
         let can_merge = if has_orig_orientation {
             let seg_in_input_t = split_from_pred.0;
-- 
2.43.0


From acd63fe98d6484204f6d70505de4b36f5d182096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 07/24] fix: scale the automatic accuracy to what comparisons
 support

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 34e0545..826186a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,9 +119,11 @@ pub fn binary_op(
     let max = bbox.max_x().max(bbox.max_y());
 
     // TODO: we did some analysis for error bounds in the case of polylines.
-    // Think more about what makes sense for curves.
+    // Think more about what makes sense for curves. For now, stick to the
+    // relative accuracy that curve comparisons support: with less than
+    // that, numerical errors can lead to inconsistent orderings.
     let m_2 = min.abs().max(max.abs());
-    let eps = m_2 * (f64::EPSILON * 64.0);
+    let eps = m_2 * 1e-8;
     let eps = eps.max(1e-6);
 
     debug_assert!(eps.is_finite());
-- 
2.43.0


From 7c668f31914eeee5cbb0dbc7a1e439b3d7d6796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 08/24] fix: don't merge output segments that were perturbed
 away from the input

---
 src/topology.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index e862ef7..eceeb53 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1085,39 +1085,32 @@ impl<W: WindingNumber> Topology<W> {
         } else {
             pos.path.elements().len() - 2
         };
-        let end_y = pos.path.elements()[copied_end]
+        let end = pos.path.elements()[copied_end]
             .end_point()
-            .map_or(self.point(seg.other_half()).y, |p| p.y);
+            .unwrap_or(self.point(seg.other_half()).to_kurbo());
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
         let can_merge = if has_orig_orientation {
             let seg_in_input_t = split_from_pred.0;
-            if (seg_in_input_t > 0.0)
+            (seg_in_input_t > 0.0)
                     && extremal_seg_is_copied
                     // Is this out seg the "first" one of the input seg?
                     && start_y == self.segments.oriented_start(orig_idx).y
-            {
-                let t = solve_t_for_y(self.segments[orig_idx].to_kurbo_cubic(), end_y);
-                Some(self.input_seg_t(seg.idx, t))
-            } else {
-                None
-            }
         } else {
             let seg_in_input_t = split_from_pred.1;
-            if seg_in_input_t < 1.0
+            seg_in_input_t < 1.0
                 && extremal_seg_is_copied
                 && start_y == self.segments.oriented_end(orig_idx).y
-            {
-                let t = solve_t_for_y(self.segments[orig_idx].to_kurbo_cubic(), end_y);
-                Some(self.input_seg_t(seg.idx, t))
-            } else {
-                None
-            }
         };
-        if self.is_simple_point(seg) {
-            can_merge
-        } else {
-            None
+        if !can_merge || !self.is_simple_point(seg) {
+            return None;
         }
+
+        let c = self.segments[orig_idx].to_kurbo_cubic();
+        let t = solve_t_for_y(c, end.y);
+        // If the copied part got perturbed where it is almost horizontal, its
+        // end might be at the right height but far away from where the merged
+        // curve would end.
+        ((c.eval(t) - end).hypot() <= self.eps).then(|| self.input_seg_t(seg.idx, t))
     }
 
     fn input_seg_t(&self, out_seg: OutputSegIdx, t: f64) -> f64 {
-- 
2.43.0


From 9651cc95e7846c44cd731c504d630fdb41d6a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 09/24] fix: only merge output segments that come from the same
 input curve

---
 src/topology.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/topology.rs b/src/topology.rs
index eceeb53..4682424 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1104,6 +1104,16 @@ impl<W: WindingNumber> Topology<W> {
         if !can_merge || !self.is_simple_point(seg) {
             return None;
         }
+        // The piece on the other side of the point must come from the same
+        // input curve, or else there's nothing to put back together.
+        let nbr_idx = if has_orig_orientation {
+            self.segments.contour_prev(orig_idx)
+        } else {
+            self.segments.contour_next(orig_idx)
+        };
+        if nbr_idx != Some(self.orig_seg[self.point_neighbors[seg].clockwise.idx]) {
+            return None;
+        }
 
         let c = self.segments[orig_idx].to_kurbo_cubic();
         let t = solve_t_for_y(c, end.y);
-- 
2.43.0


From 7b78a9c76df12bc379d97da9272f8c0468271a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 10/24] fix: contour hierarchy when contours touch each other
 at a point

---
 src/topology.rs | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index 4682424..af73073 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1212,6 +1212,15 @@ impl<W: WindingNumber> Topology<W> {
                     panic!("I'm {idx:?}, west is {west:?}. Y u no have contour?");
                 }
             };
+            // If we find other contours while we're walking this one, they're the
+            // children of an outer contour but the siblings of an inner one.
+            let outer = contour.outer;
+            let loop_parent = if outer {
+                Some(contour_idx)
+            } else {
+                contour.parent
+            };
+            let mut found_outer = false;
             // Reserve a space for the unfinished outer contour, as described above.
             ret.contours.push(contour);
 
@@ -1264,15 +1273,25 @@ impl<W: WindingNumber> Topology<W> {
                     // seg_idx should point to the end of a segment whose start is at p.
                     debug_assert_eq!(self.point_idx[segs[seg_idx].other_half()], p);
 
-                    let loop_contour_idx = ContourIdx(ret.contours.len());
+                    let path = self.segs_to_path(&segs[seg_idx..], &positions);
+                    let loop_contour_idx = if outer && !found_outer && seg_idx == 0 {
+                        // The repeated point is the one that we started at. Since we
+                        // started at the west-most segment of the top-most point, it's
+                        // the outer contour that we've just walked all the way around.
+                        found_outer = true;
+                        ret.contours[contour_idx.0].path = path;
+                        contour_idx
+                    } else {
+                        ret.contours.push(Contour {
+                            path,
+                            parent: loop_parent,
+                            outer: false,
+                        });
+                        ContourIdx(ret.contours.len() - 1)
+                    };
                     for &seg in &segs[seg_idx..] {
                         seg_contour[seg.idx.0] = Some(loop_contour_idx);
                     }
-                    ret.contours.push(Contour {
-                        path: self.segs_to_path(&segs[seg_idx..], &positions),
-                        parent: Some(contour_idx),
-                        outer: !ret.contours[contour_idx.0].outer,
-                    });
                     segs.truncate(seg_idx);
                     // In principle, we should also be unsetting `last_visit`
                     // for all points in the contour we just removed. I *think*
@@ -1285,10 +1304,21 @@ impl<W: WindingNumber> Topology<W> {
 
                 next = nbr.other_half();
             }
+            let path = self.segs_to_path(&segs, &positions);
+            let last_contour_idx = if found_outer {
+                ret.contours.push(Contour {
+                    path,
+                    parent: loop_parent,
+                    outer: false,
+                });
+                ContourIdx(ret.contours.len() - 1)
+            } else {
+                ret.contours[contour_idx.0].path = path;
+                contour_idx
+            };
             for &seg in &segs {
-                seg_contour[seg.idx.0] = Some(contour_idx);
+                seg_contour[seg.idx.0] = Some(last_contour_idx);
             }
-            ret.contours[contour_idx.0].path = self.segs_to_path(&segs, &positions);
         }
 
         ret
-- 
2.43.0


From ed6bbcb7f393801506f02e8d532e49cd56e90e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 11/24] fix: solve for the curve parameter accurately at large
 coordinates

roots_between takes an error in the parameter, but we were passing
a tolerance that grows with the coefficients (i.e. with the coordinates).
---
 src/curve/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index aae454e..5260b5b 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -353,8 +353,8 @@ pub fn solve_t_for_y(c: CubicBez, y: f64) -> f64 {
     let c0 = c.p0.y - y;
     let cubic = Cubic::new([c0, c1, c2, c3]);
 
-    let eps = 1e-12 * cubic.max_abs_coefficient().max(1.0);
-    let roots = cubic.roots_between(0.0, 1.0, eps);
+    // This is an error in the parameter `t`, so it doesn't depend on the coefficients.
+    let roots = cubic.roots_between(0.0, 1.0, 1e-12);
     if !roots.is_empty() {
         return roots[0];
     }
-- 
2.43.0


From e97ddd82d57eb3f95d716b90666d305aaa2959f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 12/24] fix: don't deform curves whose output endpoint is
 horizontally far away

Where a curve is almost horizontal, the output endpoint can be far from the
curve's end in the x direction. Connect them with a horizontal line instead
of moving the curve's end, which moved the whole curve by many times eps.
---
 src/position.rs | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index a8b6dd7..093617a 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -75,13 +75,12 @@ fn ordered_curves_all_close(
     for (&seg_idx, &out_idx) in order.iter().zip(output_order) {
         let out = &mut out[out_idx];
         if bez_end_y(&out.path) < y0 {
-            out.copied_idx = Some(out.path.elements().len() - 1);
             let endpoint = endpoints[out_idx.second_half()];
             if segs[seg_idx].is_line() {
+                out.copied_idx = Some(out.path.elements().len() - 1);
                 out.path.line_to(endpoint)
             } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
-                out.path.curve_to(c.p1, c.p2, c.p3);
+                copy_subsegment(&segs[seg_idx], out, y0, endpoint, accuracy);
             }
         }
     }
@@ -225,6 +224,35 @@ fn next_subsegment(seg: &Segment, out: &BezPath, y1: f64, endpoint: kurbo::Point
     c
 }
 
+// Copies the part of a (non-line) input segment between the end of `out.path` and `y1`.
+//
+// Where a curve is almost horizontal, its output endpoint can be horizontally
+// far from it (while still being within the accuracy). In that case we can't
+// just move the end of the curve to the output endpoint, because that would
+// deform all of the curve. We connect them by a horizontal line instead.
+fn copy_subsegment(
+    seg: &Segment,
+    out: &mut PositionedOutputSeg,
+    y1: f64,
+    endpoint: kurbo::Point,
+    accuracy: f64,
+) {
+    let orig = y_subsegment(seg.to_kurbo_cubic(), bez_end_y(&out.path), y1);
+    let mut c = next_subsegment(seg, &out.path, y1, endpoint);
+    if (orig.p0.x - c.p0.x).abs() > 8.0 * accuracy {
+        c.p0.x = orig.p0.x;
+        out.path.line_to(c.p0);
+    }
+    out.copied_idx = Some(out.path.elements().len() - 1);
+    if (orig.p3.x - c.p3.x).abs() > 8.0 * accuracy {
+        out.path
+            .curve_to(c.p1, c.p2, kurbo::Point::new(orig.p3.x, c.p3.y));
+        out.path.line_to(c.p3);
+    } else {
+        out.path.curve_to(c.p1, c.p2, c.p3);
+    }
+}
+
 /// A positioned output segment, possibly perturbed from the original.
 ///
 /// We perturb output segments in order to strictly enforce ordering.
@@ -365,12 +393,11 @@ pub(crate) fn compute_positions(
         let endpoint = endpoints[out_idx.second_half()];
         if bez_end_y(&out.path) < endpoint.y {
             let seg_idx = orig_seg_map[out_idx];
-            out.copied_idx = Some(out.path.elements().len() - 1);
             if segs[seg_idx].is_line() {
+                out.copied_idx = Some(out.path.elements().len() - 1);
                 out.path.line_to(endpoint)
             } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, endpoint.y, endpoint);
-                out.path.curve_to(c.p1, c.p2, c.p3);
+                copy_subsegment(&segs[seg_idx], out, endpoint.y, endpoint, accuracy);
             }
         } else {
             // The quadratic approximations don't respect the fixed endpoints, so tidy them
-- 
2.43.0


From 9fea4282cdd091aa1d72b3ad2ad1dbbdb6e03b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 13/24] fix: don't let the approximation of an almost
 horizontal piece overshoot its ends

---
 src/position.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 093617a..0147760 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -95,7 +95,7 @@ fn ordered_curves_all_close(
 
         let mut x_mid_max_so_far = f64::NEG_INFINITY;
         let mut x1_max_so_far = f64::NEG_INFINITY;
-        for (quad, out_idx) in approxes.iter().zip(output_order) {
+        for ((quad, min_x, max_x), out_idx) in approxes.iter().zip(output_order) {
             // These would be the control points, but since `approximate` recenters the y interval,
             // they're different...
             // let x_mid = quad.c0 + y_mid * quad.c1 + y0 * next_y0 * quad.c2;
@@ -105,8 +105,8 @@ fn ordered_curves_all_close(
                 + quad.c1 * (next_y0 - y_mid)
                 + quad.c2 * (next_y0 - y_mid) * (next_y0 - y_mid);
 
-            x_mid_max_so_far = x_mid_max_so_far.max(x_mid);
-            x1_max_so_far = x1_max_so_far.max(x1);
+            x_mid_max_so_far = x_mid_max_so_far.max(x_mid.max(*min_x).min(*max_x));
+            x1_max_so_far = x1_max_so_far.max(x1.max(*min_x).min(*max_x));
 
             out[*out_idx]
                 .path
@@ -143,13 +143,15 @@ fn horizontal_error_weight(c: CubicBez) -> f64 {
 }
 
 // Pushes approximating parabolas into `out`, and returns the final y position.
+//
+// Each parabola comes with the range of `x` coordinates that it should be clamped to.
 fn approximate(
     y0: f64,
     mut y1: f64,
     order: &[SegIdx],
     segs: &Segments,
     accuracy: f64,
-    out: &mut Vec<EstParab>,
+    out: &mut Vec<(EstParab, f64, f64)>,
 ) -> f64 {
     let orig_len = out.len();
 
@@ -175,7 +177,14 @@ fn approximate(
                 continue 'retry;
             }
 
-            out.push(approx);
+            // If we allowed a large horizontal error because the curve is almost
+            // horizontal, don't let that error take us past the ends of the curve.
+            if factor < 1.0 || too_short {
+                let (x0, x1) = (cubic.p0.x, cubic.p3.x);
+                out.push((approx, x0.min(x1), x0.max(x1)));
+            } else {
+                out.push((approx, f64::NEG_INFINITY, f64::INFINITY));
+            }
         }
 
         return y1;
-- 
2.43.0


From fed62a23d973b1a96f8f9179e561daca916c301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 14/24] fix: don't let a segment that ends here decide where a
 new one is inserted

A segment ending at the current height can be out of order (intersection scans
ignore it), so a new segment could be inserted to the left of one that is clearly
to its left.
---
 src/sweep/sweep_line.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 1db8f63..7ef294c 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -1202,7 +1202,11 @@ impl SegmentOrder {
             match cmp.order_at(y) {
                 Order::Right => {
                     // The segment at i is definitely to the right of the new one.
-                    break;
+                    // If it ends here then it might be out of order (see `find_invalid_order`),
+                    // and so it doesn't say anything about the segments after it.
+                    if segments[self.segs[i].seg].end().y > y {
+                        break;
+                    }
                 }
                 Order::Ish => {
                     // We could go either way, and we'll update our preference based on the
-- 
2.43.0


From 53f10f99c2396f85fc482f58e163bb7f8d5c1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 15/24] fix: don't let segments that end (start) here constrain
 the positions below (above)

feasible_horizontal_positions narrowed the range of every segment by the
extents of all its neighbours in the line, including those that only exist on
the other side of the sweep line: a segment that ends at this height pushed
the segments below it, and one that starts here pushed the segments above it,
so that output points strayed from the curves they belong to.
---
 src/sweep/sweep_line.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 7ef294c..8b7a8be 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -1244,9 +1244,16 @@ impl SegmentOrder {
 /// each segment an `x` coordinate within its range then you won't paint
 /// yourself into a corner: subsequent points can be positioned with the right
 /// ordering *and* within the designated range.
-fn feasible_horizontal_positions<G: Fn(&SegmentOrderEntry) -> SegIdx>(
+///
+/// Segments that are `absent` (because they only exist on the other side of the
+/// sweep line) don't constrain the others.
+fn feasible_horizontal_positions<
+    G: Fn(&SegmentOrderEntry) -> SegIdx,
+    A: Fn(&SegmentOrderEntry) -> bool,
+>(
     entries: &[SegmentOrderEntry],
     entry_seg: G,
+    absent: A,
     y: f64,
     segments: &Segments,
     eps: f64,
@@ -1259,6 +1266,10 @@ fn feasible_horizontal_positions<G: Fn(&SegmentOrderEntry) -> SegIdx>(
 
     for entry in entries {
         let seg = &segments[entry_seg(entry)];
+        if absent(entry) {
+            out.push((*entry, max_so_far, 0.0));
+            continue;
+        }
         max_so_far = max_so_far.max(seg.lower(y, eps));
         // Fill out the minimum allowed positions, with a placeholder for the maximum.
         out.push((*entry, max_so_far, 0.0));
@@ -1271,8 +1282,10 @@ fn feasible_horizontal_positions<G: Fn(&SegmentOrderEntry) -> SegIdx>(
     let mut min_so_far = f64::INFINITY;
 
     for (entry, min_allowed, max_allowed) in out.iter_mut().rev() {
-        let x = segments[entry_seg(entry)].upper(y, eps);
-        min_so_far = min_so_far.min(x);
+        if !absent(entry) {
+            let x = segments[entry_seg(entry)].upper(y, eps);
+            min_so_far = min_so_far.min(x);
+        }
         *max_allowed = min_so_far.min(max);
         *min_allowed = min_allowed.max(min);
     }
@@ -1488,6 +1501,7 @@ impl<'segs> SweepLine<'_, '_, 'segs> {
         feasible_horizontal_positions(
             &buffers.old_line,
             |entry| entry.old_seg(),
+            |entry| entry.enter && entry.old_seg.is_none(),
             self.state.y,
             segments,
             self.state.eps,
@@ -1514,7 +1528,9 @@ impl<'segs> SweepLine<'_, '_, 'segs> {
                 segments[entry.seg].at_y(self.state.y)
             };
             let x = preferred_x.max(*min_x).max(max_so_far).min(*max_x);
-            max_so_far = x;
+            if !entry.enter || entry.old_seg.is_some() {
+                max_so_far = x;
+            }
             events.push(OutputEvent {
                 x0: x,
                 connected_above: entry.old_seg.is_some() || !entry.enter,
@@ -1536,6 +1552,7 @@ impl<'segs> SweepLine<'_, '_, 'segs> {
         feasible_horizontal_positions(
             &buffers.old_line,
             |entry| entry.seg,
+            |entry| entry.exit && entry.old_seg.is_none(),
             self.state.y,
             segments,
             self.state.eps,
@@ -1553,7 +1570,9 @@ impl<'segs> SweepLine<'_, '_, 'segs> {
                 segments[entry.seg].at_y(self.state.y)
             };
             ev.x1 = preferred_x.max(*min_x).max(max_so_far).min(*max_x);
-            max_so_far = ev.x1;
+            if !entry.exit || entry.old_seg.is_some() {
+                max_so_far = ev.x1;
+            }
 
             let x1 = ev.x1;
             if entry.old_seg.is_some() {
-- 
2.43.0


From 238d862781a0330a026d9c416d54477fb38dbb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 16/24] fix: merge three or more coincident segments

merge_coincident only merged a segment with its west neighbour when that
neighbour had not been merged itself, so of three coincident segments one
was left over and e.g. the union of adjacent shapes had a zero-width seam.
---
 src/topology.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index af73073..714c77f 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -847,8 +847,16 @@ impl<W: WindingNumber> Topology<W> {
                 // b and c aren't. Then merging a and d would be bad -- even if they're clockwise
                 // neighbors by going around the way that avoids b and c -- because it would mess up
                 // the winding numbers of b and c.
-                if y0 != y1 && self.scan_west[idx] != Some(cw_nbr.idx) {
-                    continue;
+                if y0 != y1 {
+                    // Segments that were already merged into `cw_nbr` (or that
+                    // vanished) don't separate us from it.
+                    let mut west = self.scan_west[idx];
+                    while let Some(w) = west.filter(|w| self.deleted[*w]) {
+                        west = self.scan_west[w];
+                    }
+                    if west != Some(cw_nbr.idx) {
+                        continue;
+                    }
                 }
                 if y0 != y1 {
                     let s1 = self.orig_seg[idx];
-- 
2.43.0


From 4461d216c756944223d01bbc429f144fa858a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 17/24] fix: find the next touch of curves that already touch

---
 src/curve/mod.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 5260b5b..920b415 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -159,29 +159,31 @@ impl CurveOrder {
             .skip_while(|(_start, end, _order)| end <= &y)
             .skip_while(|(_start, _end, order)| *order == Order::Left);
 
-        let (y0, y1, order) = iter.next()?;
+        let (mut y0, mut y1, order) = iter.next()?;
         if order == Order::Right {
             return Some(CurveInteraction::Cross(y));
         }
 
-        // If this interval is the last one, we'll say there's no touch.
-        // It will get handled at the endpoint anyway.
-        let (_, next_y1, next_order) = iter.next()?;
-
-        let cross_y = (y0 + y1) / 2.0;
-        match next_order {
-            Order::Right => Some(CurveInteraction::Cross(cross_y)),
-            Order::Left => {
-                if y < y0 {
-                    Some(CurveInteraction::Touch(cross_y))
-                } else {
-                    self.next_touch_after(next_y1)
+        loop {
+            // If this interval is the last one, we'll say there's no touch.
+            // It will get handled at the endpoint anyway.
+            let (_, _, next_order) = iter.next()?;
+
+            let cross_y = (y0 + y1) / 2.0;
+            match next_order {
+                Order::Right => return Some(CurveInteraction::Cross(cross_y)),
+                Order::Left => {
+                    if y < y0 {
+                        return Some(CurveInteraction::Touch(cross_y));
+                    }
+                    // We were already touching at `y`, so look for the next touch.
+                    (y0, y1, _) = iter.next()?;
+                }
+                Order::Ish => {
+                    // The current order is Ish, and adjacent orders get merged
+                    // so the next one isn't Ish.
+                    unreachable!();
                 }
-            }
-            Order::Ish => {
-                // The current order is Ish, and adjacent orders get merged
-                // so the next one isn't Ish.
-                unreachable!();
             }
         }
     }
-- 
2.43.0


From dc2e6c5fd77fec86c99d6f2d3e71f1e9dfda61d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 18/24] fix: don't undo and redo crossings of mutually close
 segments forever

---
 src/sweep/sweep_line.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 8b7a8be..4c292b4 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -653,6 +653,11 @@ impl<'segs> Sweeper<'segs> {
             // all segments that are strictly bigger than `left_seg`
             // (slight false positives are allowed; no false negatives).
             let mut to_move = vec![left_idx];
+            let (y_cross, left_right_order) = self
+                .compare_segments(left, right)
+                .iter()
+                .find(|(_, end, _)| *end > self.y)
+                .map_or((self.y, Order::Right), |(_, end, order)| (end, order));
             for j in (left_idx + 1)..right_idx {
                 let seg_j_entry = &self.line.segs[j];
                 if seg_j_entry.will_really_exit() {
@@ -662,6 +667,7 @@ impl<'segs> Sweeper<'segs> {
                 let seg_j_idx = seg_j_entry.seg;
                 let cmp = self.compare_segments(left, seg_j_idx);
                 let (_, y1, left_j_order) = cmp.entry_at(self.y);
+                let j_cmp = self.compare_segments(seg_j_idx, right);
                 if left_j_order == Order::Left {
                     // Because the order isn't transitive, it's possible that
                     // we've been asked to push `seg_j` to the right of `right`,
@@ -670,7 +676,6 @@ impl<'segs> Sweeper<'segs> {
                     // a bad ordering between `left` and `right`, because that
                     // would imply an ordering cycle
                     // (`left` < `seg_j` < `right` < `left`).
-                    let j_cmp = self.compare_segments(seg_j_idx, right);
                     let (_, y2, j_right_order) = j_cmp.entry_at(self.y);
                     if j_right_order == Order::Left {
                         self.events.push(IntersectionEvent {
@@ -683,6 +688,27 @@ impl<'segs> Sweeper<'segs> {
 
                     to_move.push(j);
                 }
+
+                // Pushing `seg_j` to the right of `right`, or moving `left` to
+                // the right of `seg_j`, might be something that we'd have to undo
+                // later. There could even be something else that makes us undo it
+                // right away, and then we'd be going around in circles. As long as
+                // `left` and `right` are close we have time, so wait.
+                let undone = if left_j_order == Order::Left {
+                    j_cmp.order_after(self.y)
+                } else if left_j_order == Order::Ish {
+                    cmp.order_after(self.y)
+                } else {
+                    Order::Ish
+                };
+                if left_right_order == Order::Ish && undone == Order::Left {
+                    self.events.push(IntersectionEvent {
+                        y: y1.min(y_cross),
+                        left,
+                        right,
+                    });
+                    return;
+                }
             }
 
             // Keep track of segment movement. TODO: reference a more detailed write-up
-- 
2.43.0


From 902a538ac5d654d96e9a8e30b5bb65dc76049f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 19/24] fix: insert close segments in the order in which they
 end

---
 src/order.rs            |  5 +++++
 src/sweep/sweep_line.rs | 23 +++++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/order.rs b/src/order.rs
index d3f8b7c..6793072 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -51,6 +51,11 @@ impl ComparisonCache {
         }
     }
 
+    /// How close two curves can be to be declared "ish".
+    pub(crate) fn tolerance(&self) -> f64 {
+        self.tolerance
+    }
+
     /// Compares two segments, returning their order.
     ///
     /// TODO: this API will change to something with less cloning
diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 4c292b4..5d4daf7 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -1131,6 +1131,19 @@ impl ChangedInterval {
     }
 }
 
+/// Is the first segment clearly to the left of the second one at the height where
+/// the first of them ends?
+///
+/// When one of the segments is almost horizontal, the vertical slop in our comparisons
+/// can make them `Ish` all the way, even when they end far apart. Such segments can
+/// be put in any order, but unless we put them in the order in which they end there will
+/// be other segments that don't fit in.
+fn ends_left(segments: &Segments, i: SegIdx, j: SegIdx, eps: f64) -> bool {
+    let (seg_i, seg_j) = (&segments[i], &segments[j]);
+    let y = seg_i.end().y.min(seg_j.end().y);
+    seg_i.at_y(y) + eps < seg_j.at_y(y)
+}
+
 impl SegmentOrder {
     // If the ordering invariants fail, returns a pair of indices witnessing that failure.
     // Used in tests, and when enabling slow-asserts
@@ -1180,6 +1193,7 @@ impl SegmentOrder {
     ) -> usize {
         let seg = &segments[seg_idx];
         let seg_x = seg.start().x;
+        let eps = comparer.tolerance();
 
         // Fast path: we first do a binary search just with the horizontal bounding intervals.
         // `pos` is an index where we're to the left of that segment's right-most point, and
@@ -1202,6 +1216,7 @@ impl SegmentOrder {
             let cmp = comparer.compare_segments(segments, seg_idx, self.segs[pos].seg);
             return match cmp.order_after(y) {
                 Order::Right => pos + 1,
+                Order::Ish if ends_left(segments, self.segs[pos].seg, seg_idx, eps) => pos + 1,
                 Order::Ish => pos,
                 Order::Left => pos,
             };
@@ -1237,8 +1252,12 @@ impl SegmentOrder {
                 Order::Ish => {
                     // We could go either way, and we'll update our preference based on the
                     // future ordering.
-                    if cmp.order_after(y) == Order::Left {
-                        idx = i + 1;
+                    match cmp.order_after(y) {
+                        Order::Left => idx = i + 1,
+                        Order::Ish if ends_left(segments, self.segs[i].seg, seg_idx, eps) => {
+                            idx = i + 1
+                        }
+                        _ => {}
                     }
                 }
                 Order::Left => {
-- 
2.43.0


From 1b90874a5ad8ff4eb724efb31ad95e53e17c0356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 20/24] fix: keep the neighbors of segments with sideways steps
 on the right side

When a segment starts or ends, there can be a horizontal step between
its position and its end point. The segments next to that step get
positions, but the segments that are close to those didn't take part, and
so the positions could contradict the sweep line's order.
---
 src/sweep/sweep_line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 5d4daf7..1cea293 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -956,6 +956,7 @@ impl<'segs> Sweeper<'segs> {
     ///
     /// This method adds all the changed intervals that are needed to handle this case.
     fn compute_contour_adjacent_changed_intervals(&mut self) {
+        let mut also_needed = Vec::new();
         for &j in &self.segs_needing_positions {
             let seg_entry = self.line.segs[j];
 
@@ -1014,8 +1015,11 @@ impl<'segs> Sweeper<'segs> {
                     segs: start_idx..(end_idx + 1),
                     horizontals: None,
                 });
+                also_needed.extend(start_idx..=end_idx);
             }
         }
+        // The neighbors of these segments need to stay on the right side of them.
+        self.segs_needing_positions.extend(also_needed);
     }
 
     /// Updates our internal `changed_intervals` state based on the segments marked
-- 
2.43.0


From 881927e279a0158abbb9daf1ba72eb1473e477df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 21/24] fix: draw lines only down to where they are
 approximated together with their neighbors

---
 src/position.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index 0147760..17fdef3 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -77,8 +77,10 @@ fn ordered_curves_all_close(
         if bez_end_y(&out.path) < y0 {
             let endpoint = endpoints[out_idx.second_half()];
             if segs[seg_idx].is_line() {
+                // Only go as far as `y0`, where the approximation takes over.
+                let line = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
                 out.copied_idx = Some(out.path.elements().len() - 1);
-                out.path.line_to(endpoint)
+                out.path.line_to(line.p3)
             } else {
                 copy_subsegment(&segs[seg_idx], out, y0, endpoint, accuracy);
             }
-- 
2.43.0


From 1ed6fc6249908a8eff936db15f2bacab045172e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 22/24] fix: end the common approximation of curves where
 another curve joins them

---
 src/position.rs |  8 ++++++++
 src/topology.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index 17fdef3..2e70848 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -374,6 +374,14 @@ pub(crate) fn compute_positions(
                 out[idx].path.line_to(endpoints[idx.second_half()]);
             }
         } else {
+            // Stop where another segment joins us: from there on, the new one has to
+            // be taken into account.
+            for &idx in &neighbors {
+                let joined =
+                    scan_order.close_new_neighbor_height_after(idx, y0, orig_seg_map, segs, cmp);
+                y1 = y1.min(joined.unwrap_or(f64::INFINITY));
+            }
+
             let orig_neighbors = neighbors
                 .iter()
                 .map(|idx| orig_seg_map[*idx])
diff --git a/src/topology.rs b/src/topology.rs
index 714c77f..57d3d3f 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1712,6 +1712,28 @@ impl HalfScanLineOrder {
             .map(|((y0, maybe_seg), y1)| (*y0, y1, *maybe_seg))
     }
 
+    /// Returns the first height after `y` at which `seg` is close to a neighbor
+    /// that isn't its neighbor yet at `y`.
+    fn close_new_neighbor_height_after(
+        &self,
+        seg: OutputSegIdx,
+        y: f64,
+        orig_seg: &OutputSegVec<SegIdx>,
+        segs: &Segments,
+        cmp: &mut ComparisonCache,
+    ) -> Option<f64> {
+        self.iter(seg)
+            .filter(|(y0, _, _)| *y0 > y)
+            .find_map(|(y0, y1, other_seg)| {
+                let order = cmp.compare_segments(segs, orig_seg[seg], orig_seg[other_seg?]);
+                let ish = order
+                    .iter()
+                    .take_while(|(order_y0, _, _)| *order_y0 < y1)
+                    .find(|(_, order_y1, order)| *order == Order::Ish && *order_y1 > y0);
+                ish.map(|(order_y0, _, _)| order_y0.max(y0))
+            })
+    }
+
     fn close_neighbor_height_after(
         &self,
         seg: OutputSegIdx,
@@ -1803,6 +1825,25 @@ impl ScanLineOrder {
             .close_neighbor_height_after(seg, y, orig_seg, segs, cmp)
     }
 
+    /// Returns the first height after `y` at which `seg` is close to a neighbor (on
+    /// either side) that isn't its neighbor yet at `y`.
+    pub fn close_new_neighbor_height_after(
+        &self,
+        seg: OutputSegIdx,
+        y: f64,
+        orig_seg: &OutputSegVec<SegIdx>,
+        segs: &Segments,
+        cmp: &mut ComparisonCache,
+    ) -> Option<f64> {
+        let west = self
+            .west_map
+            .close_new_neighbor_height_after(seg, y, orig_seg, segs, cmp);
+        let east = self
+            .east_map
+            .close_new_neighbor_height_after(seg, y, orig_seg, segs, cmp);
+        west.into_iter().chain(east).reduce(f64::min)
+    }
+
     #[cfg(feature = "slow-asserts")]
     fn check_invariants(&self, orig_seg: &OutputSegVec<SegIdx>, segs: &Segments) {
         for idx in self.east_map.inner.indices() {
-- 
2.43.0


From d10c6e8dce7bd9dee774799d65b84681f05a3b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 23/24] fix: connect lines to end points that were moved away
 from them by a horizontal step

---
 src/position.rs | 53 ++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 2e70848..dc9bbcb 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -76,14 +76,7 @@ fn ordered_curves_all_close(
         let out = &mut out[out_idx];
         if bez_end_y(&out.path) < y0 {
             let endpoint = endpoints[out_idx.second_half()];
-            if segs[seg_idx].is_line() {
-                // Only go as far as `y0`, where the approximation takes over.
-                let line = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
-                out.copied_idx = Some(out.path.elements().len() - 1);
-                out.path.line_to(line.p3)
-            } else {
-                copy_subsegment(&segs[seg_idx], out, y0, endpoint, accuracy);
-            }
+            copy_subsegment(&segs[seg_idx], out, y0, endpoint, accuracy);
         }
     }
 
@@ -235,12 +228,14 @@ fn next_subsegment(seg: &Segment, out: &BezPath, y1: f64, endpoint: kurbo::Point
     c
 }
 
-// Copies the part of a (non-line) input segment between the end of `out.path` and `y1`.
+// Copies the part of an input segment between the end of `out.path` and `y1`.
 //
-// Where a curve is almost horizontal, its output endpoint can be horizontally
-// far from it (while still being within the accuracy). In that case we can't
-// just move the end of the curve to the output endpoint, because that would
-// deform all of the curve. We connect them by a horizontal line instead.
+// Where a segment is almost horizontal, its output endpoint can be horizontally
+// far from it (while still being within the accuracy). The same happens to a
+// segment that has been moved along another one that's almost horizontal. In
+// that case we can't just move the end of a curve to the output endpoint,
+// because that would deform all of the curve. We connect them by a horizontal
+// line instead. For lines we only do so if they'd stray too far otherwise.
 fn copy_subsegment(
     seg: &Segment,
     out: &mut PositionedOutputSeg,
@@ -250,17 +245,30 @@ fn copy_subsegment(
 ) {
     let orig = y_subsegment(seg.to_kurbo_cubic(), bez_end_y(&out.path), y1);
     let mut c = next_subsegment(seg, &out.path, y1, endpoint);
-    if (orig.p0.x - c.p0.x).abs() > 8.0 * accuracy {
+    let weight = if seg.is_line() {
+        let v = orig.p3 - orig.p0;
+        v.y / v.hypot()
+    } else {
+        1.0
+    };
+    let far = |p: kurbo::Point, q: kurbo::Point| (p.x - q.x).abs() * weight > 8.0 * accuracy;
+    if far(orig.p0, c.p0) {
         c.p0.x = orig.p0.x;
         out.path.line_to(c.p0);
     }
     out.copied_idx = Some(out.path.elements().len() - 1);
-    if (orig.p3.x - c.p3.x).abs() > 8.0 * accuracy {
-        out.path
-            .curve_to(c.p1, c.p2, kurbo::Point::new(orig.p3.x, c.p3.y));
-        out.path.line_to(c.p3);
+    let end = if far(orig.p3, c.p3) {
+        kurbo::Point::new(orig.p3.x, c.p3.y)
+    } else {
+        c.p3
+    };
+    if seg.is_line() {
+        out.path.line_to(end);
     } else {
-        out.path.curve_to(c.p1, c.p2, c.p3);
+        out.path.curve_to(c.p1, c.p2, end);
+    }
+    if end != c.p3 {
+        out.path.line_to(c.p3);
     }
 }
 
@@ -412,12 +420,7 @@ pub(crate) fn compute_positions(
         let endpoint = endpoints[out_idx.second_half()];
         if bez_end_y(&out.path) < endpoint.y {
             let seg_idx = orig_seg_map[out_idx];
-            if segs[seg_idx].is_line() {
-                out.copied_idx = Some(out.path.elements().len() - 1);
-                out.path.line_to(endpoint)
-            } else {
-                copy_subsegment(&segs[seg_idx], out, endpoint.y, endpoint, accuracy);
-            }
+            copy_subsegment(&segs[seg_idx], out, endpoint.y, endpoint, accuracy);
         } else {
             // The quadratic approximations don't respect the fixed endpoints, so tidy them
             // up. Since both the quadratic approximations and the endpoints satisfy
-- 
2.43.0


From 2ab0fddcc93d43eab27cceb1803784c8c32bfd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 24/24] fix: keep the order of close curves above y = 0

The positions of close output segments are chosen together, unless that was
already done up to some height. That height started out as zero, and so close
curves at negative heights were never looked at together and could cross.
---
 src/position.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/position.rs b/src/position.rs
index dc9bbcb..29ca9f1 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -319,6 +319,7 @@ pub(crate) fn compute_positions(
             continue;
         }
         out[idx].path.move_to(p);
+        last_y[idx] = p.y;
         queue.push(HeapEntry { y: p.y.into(), idx });
     }
 
-- 
2.43.0

