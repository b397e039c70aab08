From 81cb0127aa2f254aed529b25b8ac32edf75b1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:44 +0000
Subject: [PATCH 01/18] fix: let a vehicle exit when its best path equals its
 current route

Setting a destination clears the flag that lets a vehicle leave at the end of
its route. The flag was only restored when the chosen path differed from the
route already being followed, so a vehicle whose destination is the link it is
on (or whose destination was set again) stopped at the end and never left.
---
 src/vehicle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index c45277c..d0be0b0 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -413,7 +413,7 @@ impl Vehicle {
             .paths()
             .iter()
             .min_by_key(|path| self.evaluate_path(path, links))
-            .filter(|path| !path.links.iter().eq(&self.route))
+            .filter(|path| path.can_exit != self.can_exit || !path.links.iter().eq(&self.route))
     }
 
     /// Evaluates the desirability of being on a given path,
-- 
2.43.0


From fabd999526dcbe60d6c33e6f5fa96c53dcabf74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:53 +0000
Subject: [PATCH 02/18] fix: only plan paths that approach the destination

When a link on the route connects back to an earlier link of the route (any
loop), the way round the loop was as good as the way to the destination, and
paths also continued past the destination itself. Vehicles could circulate for
ever. Remember how far along the route each link is and never plan backwards.
---
 src/vehicle/pathfinding.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index cd18bbb..1a990fa 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -14,6 +14,8 @@ pub(crate) struct PathfindingModel {
     dst: LinkId,
     /// A matrix used to determine the desirability of each link.
     matrix: SparseSecondaryMap<LinkId, LaneDists>,
+    /// How many links away from the destination each link in the matrix is, along the route.
+    ranks: SparseSecondaryMap<LinkId, usize>,
     /// The current set of available paths.
     paths: Vec<Path>,
 }
@@ -58,6 +60,7 @@ impl PathfindingModel {
     fn reroute(&mut self, links: &LinkSet) {
         if self.src.is_null() || self.dst.is_null() {
             self.matrix = Default::default();
+            self.ranks = Default::default();
             return;
         }
 
@@ -75,9 +78,11 @@ impl PathfindingModel {
     /// Calculates a lane matrix from a path.
     fn calc_lane_matrix(&mut self, route: &[LinkId], links: &LinkSet) {
         let mut matrix = SparseSecondaryMap::new();
+        let mut ranks = SparseSecondaryMap::new();
         matrix.insert(self.dst, LaneDists::exit());
+        ranks.insert(self.dst, 0);
 
-        for link_id in route.iter().rev() {
+        for (idx, link_id) in route.iter().rev().enumerate() {
             let group = links[*link_id].group();
             let group_links = group
                 .map(|g| g.link_ids())
@@ -95,6 +100,7 @@ impl PathfindingModel {
                     .map(|d| d.offset(link.length()));
                 if let Some(dists) = dists {
                     matrix.insert(*link_id, dists);
+                    ranks.insert(*link_id, idx + 1);
                 }
             }
 
@@ -108,12 +114,14 @@ impl PathfindingModel {
                             .unwrap()
                             .or_insert(LaneDists::dead(links[from].length()));
                         *from_dists = from_dists.combine(&to_dists);
+                        ranks.insert(from, idx + 1);
                     }
                 }
             }
         }
 
         self.matrix = matrix;
+        self.ranks = ranks;
     }
 
     fn make_paths(&mut self, links: &LinkSet) {
@@ -151,6 +159,10 @@ impl PathfindingModel {
             let last_idx = path.len();
             path.push(LinkId::null());
             for succ in links[link_id].links_out() {
+                // Only ever move closer to the destination
+                if self.ranks.get(*succ) >= self.ranks.get(link_id) {
+                    continue;
+                }
                 path[last_idx] = *succ;
                 found |= self.make_paths_inner(links, path, dist);
             }
-- 
2.43.0


From c73a6f17035ad2f673e62c6e6158a96480efc5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:59 +0000
Subject: [PATCH 03/18] fix: look up the right projection between links of a
 group

Projections from a link onto itself are not stored, but the index of the
destination did not account for the gap. Changing to a lane further right used
some other pair's projection, so vehicles misjudged where they would end up and
could move into a lane beyond its end.
---
 src/group.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/group.rs b/src/group.rs
index 642a2ad..4ce1da3 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -92,6 +92,8 @@ impl LinkGroup {
         let src_idx = self.find_link(src).expect("Link is not in group.");
         let dst_idx = self.find_link(dst).expect("Link is not in group.");
         let n = self.links.len() - 1;
+        // There is no projection from a link onto itself
+        let dst_idx = if dst_idx > src_idx { dst_idx - 1 } else { dst_idx };
         &self.projections[(n * src_idx) + dst_idx]
     }
 
-- 
2.43.0


From 57ad97e9f2173468adb700de63bbe26d7206e17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:45 +0000
Subject: [PATCH 04/18] fix: keep planning the path of a vehicle that is
 changing lanes

A lane change requested through the API resets the vehicle's route to the link
it moves to. The route was only extended again once the lane change completed,
so a vehicle that reached the end of the link first stopped there for ever.
Keep choosing paths during a lane change, restricted to the current lane.
---
 src/vehicle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index d0be0b0..1db5c9d 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -404,14 +404,13 @@ impl Vehicle {
     /// Evaluates the available paths and chooses the best, which may involve a lane change.
     /// If the path the vehicle is currently on is the best, then `None` is returned.
     pub(crate) fn choose_path(&self, links: &LinkSet) -> Option<&Path> {
-        if self.lane_change.is_some() {
-            // Don't lane change while already lane changing
-            return None;
-        }
+        // Don't lane change while already lane changing
+        let lane_changing = self.lane_change.is_some();
 
         self.pathfind
             .paths()
             .iter()
+            .filter(|path| !lane_changing || path.links[0] == self.route[0])
             .min_by_key(|path| self.evaluate_path(path, links))
             .filter(|path| path.can_exit != self.can_exit || !path.links.iter().eq(&self.route))
     }
-- 
2.43.0


From e91ca1f0a7662821bb9407790023966d9d7105dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:40 +0000
Subject: [PATCH 05/18] fix: project points next to a corner of a curve

The iteration in project_point_onto_curve jumped back and forth between the two
sides of a tangent discontinuity for ever and gave up, even though links are
polylines and have one at every joint. A lane change there panicked.
---
 src/math/curve/algorithms.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/math/curve/algorithms.rs b/src/math/curve/algorithms.rs
index d8d8d46..f1ea34d 100644
--- a/src/math/curve/algorithms.rs
+++ b/src/math/curve/algorithms.rs
@@ -22,11 +22,19 @@ pub fn project_point_onto_curve(
     });
     let (mut p, mut p_dt) = (curve.sample(t), curve.sample_dt(t));
 
-    // Refine `t` with Newton's method
+    // Refine `t` with Newton's method, with smaller and smaller steps each time it overshoots,
+    // since it would do so forever where the curve's tangent is discontinuous
+    let mut damping = 1.0;
+    let mut last_error = 0.0;
     for _ in 0..64 {
         let error = p_dt.dot(point - p) / p_dt.magnitude();
-        t += error;
-        if error.abs() < max_error || !bounds.contains(t) {
+        if error * last_error < 0.0 {
+            damping *= 0.5;
+        }
+        last_error = error;
+        let delta = damping * error;
+        t += delta;
+        if delta.abs() < max_error || !bounds.contains(t) {
             return Some(t);
         }
         (p, p_dt) = (curve.sample(t), curve.sample_dt(t));
-- 
2.43.0


From 1255599ce7013b51e8ea69d690eb292250d882d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:02 +0000
Subject: [PATCH 06/18] fix: keep a traffic light without phases red

Stepping such a light panicked, even though the phase update already allows for it.
---
 src/light.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light.rs b/src/light.rs
index a79a064..a8f0333 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -142,7 +142,7 @@ impl TrafficLight {
 
     /// Applies the current traffic light phase to each movement.
     fn apply_phase(&mut self) {
-        let Phase { mask, .. } = self.phases[self.phase];
+        let mask = self.phases.get(self.phase).map_or(0, |phase| phase.mask);
         for (idx, movement) in self.movements.iter_mut().enumerate() {
             movement.active = (mask >> idx) & 1 != 0;
         }
-- 
2.43.0


From fdbcccbbf90f42c1b99e04a974d37c934950849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:13 +0000
Subject: [PATCH 07/18] fix: list every route exactly once

Links that can only be reached by changing lanes after leaving the first link
were missing, and a link that is both an entry and an exit was listed twice.
---
 src/simulation.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/simulation.rs b/src/simulation.rs
index c46a55f..172beec 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -98,17 +98,12 @@ impl Simulation {
             .values()
             .filter(|link| link.links_in().is_empty());
         srcs.map(|link| link.id()).flat_map(move |src| {
-            let f = self.links[src].reachable_lanes().iter().copied();
-            let s = pathfinding::directed::dfs::dfs_reach(src, move |id| {
-                let lanes = self.links[*id].reachable_lanes();
-                lanes.iter().flat_map(move |link_id| {
-                    let link = &self.links[*link_id];
-                    link.links_out().iter().copied()
-                })
-            });
-            f.chain(s)
-                .filter(|id| self.links[*id].links_out().is_empty())
-                .map(move |dst| (src, dst))
+            pathfinding::directed::dfs::dfs_reach(src, move |id| {
+                let link = &self.links[*id];
+                link.lane_changes().iter().chain(link.links_out()).copied()
+            })
+            .filter(|id| self.links[*id].links_out().is_empty())
+            .map(move |dst| (src, dst))
         })
     }
 
-- 
2.43.0


From 09193260795dbcc6fffd76d3646b75e7c0b6434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:13 +0000
Subject: [PATCH 08/18] fix: don't overestimate the reach time of speeding
 vehicles

A vehicle above the maximum speed was credited with the time it would have
taken to accelerate to it, so it reached its own position in the future.
Gap acceptance then let other vehicles pull out in front of it.
---
 src/vehicle/acceleration.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vehicle/acceleration.rs b/src/vehicle/acceleration.rs
index c3be662..018ecdf 100644
--- a/src/vehicle/acceleration.rs
+++ b/src/vehicle/acceleration.rs
@@ -61,6 +61,8 @@ impl AccelerationModel {
     /// Calculates the time it would take the vehicle to reach the given `pos`
     /// if it maximally accelerated.
     pub fn min_reach_time(&self, vel: f64, dist: f64, max_vel: f64) -> f64 {
+        // The vehicle may already be exceeding the maximum speed
+        let max_vel = f64::max(max_vel, vel);
         let discr = 2.0 * self.max_acc * dist + vel.powi(2);
         if discr < max_vel.powi(2) {
             (discr.sqrt() - vel) / self.max_acc
-- 
2.43.0


From 53bc9211bcb0f022049e8d995cfabbf565bdc086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:15 +0000
Subject: [PATCH 09/18] fix: plan the route as soon as the destination or the
 lane is set

The route was only extended at the next lane change update, up to 0.3 s later.
A vehicle that passed the end of its link before that was taken to have reached
the end of its route and vanished.
---
 src/vehicle.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index 1db5c9d..666f329 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -388,12 +388,29 @@ impl Vehicle {
         self.pos = pos;
         self.lane_change = lane_change;
         self.can_exit = false;
+        self.plan_ahead(links);
     }
 
     /// Sets the vehicle's destination link.
     pub(crate) fn set_destination(&mut self, link_id: LinkId, links: &LinkSet) {
         self.pathfind.set_destination(link_id, links);
         self.can_exit = false;
+        self.plan_ahead(links);
+    }
+
+    /// Takes the best path that starts on the current link, so that the vehicle
+    /// doesn't reach the end of its route before it next chooses a path.
+    fn plan_ahead(&mut self, links: &LinkSet) {
+        let path = self
+            .pathfind
+            .paths()
+            .iter()
+            .filter(|path| path.links[0] == self.route[0])
+            .min_by_key(|path| self.evaluate_path(path, links))
+            .cloned();
+        if let Some(path) = path {
+            self.set_path(&path);
+        }
     }
 
     /// Gets the vehicle's current destination link.
-- 
2.43.0


From 184590f818f8b386108646cc46b638b79abde56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:26 +0000
Subject: [PATCH 10/18] fix: plan ahead from the end of the link a vehicle is
 on

Paths are only made when a vehicle enters a link, and ended at the next link if
it was entered over 200 m before. The vehicle then braked for the end of that
next link as if the road ended there, and never got past a very short one.
---
 src/vehicle/pathfinding.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index 1a990fa..b004672 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -153,7 +153,10 @@ impl PathfindingModel {
 
         let mut found = false;
 
-        if !path.is_full() && dist < PLAN_DIST {
+        // Paths are only extended once the vehicle leaves the first link, so plan from its end
+        let plan_dist = PLAN_DIST + links[path[0]].length();
+
+        if !path.is_full() && dist < plan_dist {
             let link = &links[link_id];
             let dist = dist + link.length();
             let last_idx = path.len();
-- 
2.43.0


From 31c741237d0773fc217aebec658131cce174538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:43 +0000
Subject: [PATCH 11/18] fix: let each traffic light phase last for its whole
 duration

A movement that stays green from one phase to the next made the second phase
end at once, as did a phase without movements. Count the time since the phase
began as well.
---
 src/light.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/light.rs b/src/light.rs
index a8f0333..085381a 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -12,6 +12,8 @@ pub struct TrafficLight {
     phases: Vec<Phase>,
     /// The current traffic light phase.
     phase: usize,
+    /// The time since the current phase was entered.
+    phase_since: f64,
 }
 
 /// A single traffic light movement.
@@ -119,6 +121,7 @@ impl TrafficLight {
         for movement in &mut self.movements {
             movement.step(dt);
         }
+        self.phase_since += dt;
     }
 
     /// Advances to the next traffic light phase if appropriate.
@@ -135,8 +138,10 @@ impl TrafficLight {
             .filter(|(index, _)| mask & (1 << index) != 0)
             .all(|(_, m)| m.state == LightState::Green && m.since >= duration);
 
-        if phase_complete {
+        // Movements may have been green since before this phase
+        if phase_complete && self.phase_since >= duration {
             self.phase = (self.phase + 1) % self.phases.len();
+            self.phase_since = 0.0;
         }
     }
 
-- 
2.43.0


From 243f183624cf730093b439ddf08176f73083e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:52 +0000
Subject: [PATCH 12/18] fix: give up the place in a queue when taking another
 path

---
 src/vehicle.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index 666f329..1099ab0 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -458,6 +458,11 @@ impl Vehicle {
             .take_while(|(a, b)| a == b)
             .count();
 
+        // A place in the queue only counts for the link it was taken at
+        if matched <= self.entered {
+            self.queued = None;
+        }
+
         self.route.clear();
         self.route.extend_from_slice(&path.links);
         self.entered = usize::min(self.entered, matched);
-- 
2.43.0


From c0a2e25cd52390a3a3678ab2a406c98d60a638ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:20 +0000
Subject: [PATCH 13/18] fix: project points onto curves whose parameter is not
 a length

The step was taken in metres whatever the parameter of the curve was, so
that the projection onto a Bezier curve was far off. It also stopped
short when a step overshot the end of the curve.
---
 src/math/curve/algorithms.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/math/curve/algorithms.rs b/src/math/curve/algorithms.rs
index f1ea34d..ca80eeb 100644
--- a/src/math/curve/algorithms.rs
+++ b/src/math/curve/algorithms.rs
@@ -27,16 +27,21 @@ pub fn project_point_onto_curve(
     let mut damping = 1.0;
     let mut last_error = 0.0;
     for _ in 0..64 {
-        let error = p_dt.dot(point - p) / p_dt.magnitude();
+        let speed = p_dt.magnitude();
+        let error = p_dt.dot(point - p) / speed;
         if error * last_error < 0.0 {
             damping *= 0.5;
         }
         last_error = error;
         let delta = damping * error;
-        t += delta;
-        if delta.abs() < max_error || !bounds.contains(t) {
+        let last_t = t;
+        t += delta / speed;
+        let end = t.clamp(bounds.min, bounds.max);
+        if delta.abs() < max_error || (t != end && last_t.clamp(bounds.min, bounds.max) == end) {
             return Some(t);
         }
+        // Look again from the end of the curve, it might have been overshot
+        t = end;
         (p, p_dt) = (curve.sample(t), curve.sample_dt(t));
     }
 
-- 
2.43.0


From d2338f84e832ea4338b813d9eb09d8e70aaa1495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:26 +0000
Subject: [PATCH 14/18] fix: find the intersection of curves whose parameter is
 not a length

Curves that only cross the extension of the other one no longer
intersect, and the search no longer steps over an intersection.
---
 src/math/curve/algorithms.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/math/curve/algorithms.rs b/src/math/curve/algorithms.rs
index ca80eeb..b6c7aac 100644
--- a/src/math/curve/algorithms.rs
+++ b/src/math/curve/algorithms.rs
@@ -53,21 +53,28 @@ pub fn intersect_curves(
     curve1: &impl ParametricCurve2d,
     curve2: &impl ParametricCurve2d,
 ) -> Option<(f64, f64)> {
-    let mut pos1 = curve1.bounds().min;
-    let mut pos2 = None;
-    while pos1 < curve1.bounds().max {
+    let (bounds1, bounds2) = (curve1.bounds(), curve2.bounds());
+    let mut pos1 = bounds1.min;
+    while pos1 < bounds1.max {
         let point1 = curve1.sample(pos1);
-        pos2 = project_point_onto_curve(curve2, point1, 0.1, pos2);
+        let speed1 = curve1.sample_dt(pos1).magnitude();
+        let pos2 = project_point_onto_curve(curve2, point1, 0.001, None)
+            .map(|pos2| pos2.clamp(bounds2.min, bounds2.max));
         if let Some(pos2) = pos2 {
             let point2 = curve2.sample(pos2);
             let distance = point1.distance(point2);
             if distance < 0.01 {
                 return Some((pos1, pos2));
             } else {
-                pos1 += distance;
+                // Go as far as the curves cannot meet
+                let mut step = (distance / speed1).min(bounds1.length());
+                while point1.distance(curve1.sample(pos1 + step)) > distance + 0.001 {
+                    step *= 0.5;
+                }
+                pos1 += step;
             }
         } else {
-            pos1 += 1.0;
+            pos1 += (1.0 / speed1).min(0.1 * bounds1.length());
         }
     }
     None
-- 
2.43.0


From 9a10a96a6e17fa0ddbe17e6a228c5fa821967e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:44 +0000
Subject: [PATCH 15/18] fix: use a changing vehicle's own position when it
 passes obstacles on the next link

---
 src/link.rs    |  6 ++++--
 src/vehicle.rs | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/link.rs b/src/link.rs
index 6198207..db8e3bc 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -643,8 +643,10 @@ impl<'a> RelativeVehicle<'a> {
         self.get_route(idx).map(|(link_id, _)| link_id)
     }
 
-    /// Determines whether the vehicle can pass the given obstacle.
+    /// Determines whether the vehicle can pass the given obstacle,
+    /// whose position must be the one this vehicle is relative to.
     pub fn can_pass(&self, obstacle: Obstacle, link: &Link) -> ObstaclePassResult {
-        self.vehicle.can_pass(obstacle, link)
+        let link_start = self.pos - obstacle.pos;
+        self.vehicle.can_pass(obstacle, link, link_start)
     }
 }
diff --git a/src/vehicle.rs b/src/vehicle.rs
index 1099ab0..e831873 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -520,9 +520,19 @@ impl Vehicle {
     }
 
     /// Determines whether the vehicle can pass the given obstacle.
-    pub(crate) fn can_pass(&self, mut obstacle: Obstacle, link: &Link) -> ObstaclePassResult {
+    ///
+    /// # Parameters
+    /// * `obstacle` - The obstacle
+    /// * `link` - The link the obstacle is on
+    /// * `link_start` - The position of the start of `link`, relative to the vehicle's current link
+    pub(crate) fn can_pass(
+        &self,
+        mut obstacle: Obstacle,
+        link: &Link,
+        link_start: f64,
+    ) -> ObstaclePassResult {
         let is_clear = |obstacle: Obstacle| {
-            let offset = self.offset_at(obstacle.pos - self.half_len);
+            let offset = self.offset_at(link_start + obstacle.pos - self.half_len);
             let distance = obstacle.lat.distance(offset);
             distance > self.half_wid + LATERAL_CLEARANCE
         };
-- 
2.43.0


From 725dfcad99abe225fd8869e872932aa90d08ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:19:46 +0000
Subject: [PATCH 16/18] fix: forget the old route when a vehicle's new
 destination cannot be reached

---
 src/vehicle/pathfinding.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index b004672..bf7b6ad 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -72,6 +72,10 @@ impl PathfindingModel {
         );
         if let Some((route, _)) = result {
             self.calc_lane_matrix(&route, links);
+        } else {
+            // Don't keep following the route to an earlier destination
+            self.matrix = Default::default();
+            self.ranks = Default::default();
         }
     }
 
-- 
2.43.0


From 9bcd3c8da1541631e3b58d6f2bb1d5923fcb4a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:00:29 +0000
Subject: [PATCH 17/18] fix: move a vehicle over several short links in a
 single step

---
 src/simulation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simulation.rs b/src/simulation.rs
index 172beec..576cfc7 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -339,7 +339,12 @@ impl Simulation {
 
         for (vehicle_id, vehicle) in &mut self.vehicles {
             let link_id = vehicle.link_id().unwrap();
-            let did_advance = vehicle.advance(&self.links);
+            let mut did_advance = false;
+
+            // Several short links may be crossed in a single step
+            while vehicle.advance(&self.links) {
+                did_advance = true;
+            }
 
             if did_advance {
                 self.links[link_id].remove_vehicle(vehicle_id);
-- 
2.43.0


From 2c219038504b1427fe2f25e677a70f5318d5fbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:00 +0000
Subject: [PATCH 18/18] fix: look no further than a vehicle that waits at its
 sign when giving way

---
 src/link.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/link.rs b/src/link.rs
index db8e3bc..f347f29 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -369,6 +369,12 @@ impl Link {
             match (vehicle.get_route(route.0), queued_at) {
                 // On another route
                 (None, _) => continue,
+                // On another route, and holding up those behind it while it gives way
+                (Some((link_id, RouteState::QueuedAt(_))), _)
+                    if link_id != route.1 && vehicle.has_stopped() =>
+                {
+                    return true
+                }
                 (Some((link_id, _)), _) if link_id != route.1 => continue,
                 // Vehicle has lower priority and hasn't entered the intersection yet
                 (Some((_, RouteState::NotEntered)), Some(_)) => return true,
-- 
2.43.0

