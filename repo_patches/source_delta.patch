From ba14ab827ed430e4f117c530d237648617d20c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 01/48] fix: KDTreeStrategy missed lanes within the radius,
 missed volumes above the surface and repeated lanes

The search region was compared with samples taken at h = 0 every sampling step, so lanes
closer than the radius whose samples are farther were left out, and every lane was reported
once per sample.
---
 .../maliput/geometry_base/kd_tree_strategy.h  | 10 ++++---
 src/maliput/geometry_base/kd_tree_strategy.cc | 26 ++++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/maliput/geometry_base/kd_tree_strategy.h b/include/maliput/geometry_base/kd_tree_strategy.h
index 41353d6..d4749ca 100644
--- a/include/maliput/geometry_base/kd_tree_strategy.h
+++ b/include/maliput/geometry_base/kd_tree_strategy.h
@@ -87,13 +87,17 @@ class KDTreeStrategy final : public StrategyBase {
   // @return The closest lane to the point.
   api::RoadPositionResult ClosestLane(const api::InertialPosition& inertial_position) const;
 
-  // Obtains the closest lanes in the road geometry to a given point within a region around the point.
-  // The region is an axis-aligned box with the point as center and the distance as half of the box's edge length.
-  std::deque<const api::Lane*> ClosestLanes(const api::InertialPosition& point, double half_edge_length) const;
+  // Obtains the lanes in the road geometry that might be within a given distance from a point, without repetition.
+  // The region being searched is an axis-aligned box with the point as center. Half of its edge length is the distance
+  // plus the separation there may be between any point in the lanes' volume and its closest sample.
+  std::deque<const api::Lane*> ClosestLanes(const api::InertialPosition& point, double distance) const;
 
   std::unique_ptr<math::KDTree3D<MaliputPoint>> kd_tree_;
 
   const double sampling_step_;
+
+  // Largest absolute height of the lanes' volume with respect to the samples, which are taken at h = 0.
+  double max_abs_elevation_{0.};
 };
 
 }  // namespace geometry_base
diff --git a/src/maliput/geometry_base/kd_tree_strategy.cc b/src/maliput/geometry_base/kd_tree_strategy.cc
index 142fd50..19dc67d 100644
--- a/src/maliput/geometry_base/kd_tree_strategy.cc
+++ b/src/maliput/geometry_base/kd_tree_strategy.cc
@@ -31,7 +31,10 @@
 #include "maliput/geometry_base/kd_tree_strategy.h"
 
 #include <algorithm>
+#include <cmath>
 #include <cstdlib>
+#include <deque>
+#include <unordered_set>
 
 #include "maliput/math/kd_tree.h"
 
@@ -48,6 +51,9 @@ KDTreeStrategy::KDTreeStrategy(const api::RoadGeometry* rg, const double samplin
       const auto lane_bounds = lane.second->lane_bounds(s);
       for (double r = lane_bounds.min(); r <= lane_bounds.max(); r += sampling_step_) {
         const auto inertial_pos = lane.second->ToInertialPosition({s, r, 0. /* h */}).xyz();
+        const auto elevation_bounds = lane.second->elevation_bounds(s, r);
+        max_abs_elevation_ =
+            std::max({max_abs_elevation_, std::abs(elevation_bounds.min()), std::abs(elevation_bounds.max())});
         points.push_back(MaliputPoint{{inertial_pos.x(), inertial_pos.y(), inertial_pos.z()}, lane.second});
       }
     }
@@ -67,6 +73,7 @@ api::RoadPositionResult KDTreeStrategy::DoToRoadPosition(const api::InertialPosi
 
 std::vector<api::RoadPositionResult> KDTreeStrategy::DoFindRoadPositions(const api::InertialPosition& inertial_position,
                                                                          double radius) const {
+  MALIPUT_THROW_UNLESS(radius >= 0.);
   const auto closest_lanes = this->ClosestLanes(inertial_position, radius);
   std::vector<api::RoadPositionResult> road_positions;
   for (const auto& lane : closest_lanes) {
@@ -86,8 +93,7 @@ api::RoadPositionResult KDTreeStrategy::ClosestLane(const api::InertialPosition&
   // As the kd-tree is built with a sampling step, the closest point may not be the closest lane.
   // Therefore, we search for the closest lane in a axis-aligned box whose half edge length is the distance between the
   // nearest point and the given point plus twice the sampling_step_.
-  const double half_edge_length = (point.xyz() - maliput_point).norm() + 2. * sampling_step_;
-  const std::deque<const api::Lane*> closest_lanes = ClosestLanes(point, half_edge_length);
+  const std::deque<const api::Lane*> closest_lanes = ClosestLanes(point, (point.xyz() - maliput_point).norm());
 
   // Once we have the lanes in the region, we search for the closest lane relying on the lane's ToLanePosition method.
   MALIPUT_THROW_UNLESS(maliput_point.get_lane().has_value());
@@ -110,18 +116,24 @@ api::RoadPositionResult KDTreeStrategy::ClosestLane(const api::InertialPosition&
   return road_position_result;
 }
 
-std::deque<const api::Lane*> KDTreeStrategy::ClosestLanes(const api::InertialPosition& point,
-                                                          double half_edge_length) const {
+std::deque<const api::Lane*> KDTreeStrategy::ClosestLanes(const api::InertialPosition& point, double distance) const {
+  const double half_edge_length = distance + 2. * sampling_step_ + max_abs_elevation_;
   const math::Vector3 min_corner{point.x() - half_edge_length, point.y() - half_edge_length,
                                  point.z() - half_edge_length};
   const math::Vector3 max_corner{point.x() + half_edge_length, point.y() + half_edge_length,
                                  point.z() + half_edge_length};
   const math::AxisAlignedBox search_region{min_corner, max_corner};
   const std::deque<const MaliputPoint*> maliput_points = kd_tree_->RangeSearch(search_region);
-  std::deque<const api::Lane*> maliput_lanes(maliput_points.size());
-  std::transform(maliput_points.begin(), maliput_points.end(), maliput_lanes.begin(),
-                 [](const MaliputPoint* point) { return point->get_lane().value(); });
+  std::deque<const api::Lane*> maliput_lanes;
+  std::unordered_set<const api::Lane*> visited_lanes;
+  for (const MaliputPoint* maliput_point : maliput_points) {
+    const api::Lane* lane = maliput_point->get_lane().value();
+    if (visited_lanes.insert(lane).second) {
+      maliput_lanes.push_back(lane);
+    }
+  }
   return maliput_lanes;
 }
+
 }  // namespace geometry_base
 }  // namespace maliput
-- 
2.43.0


From 84c13b826642ff6e8e359ba95b826d52dd03fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 02/48] fix: BranchPoint kept a lane end it had rejected
 because another BranchPoint owns it

---
 src/maliput/geometry_base/branch_point.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maliput/geometry_base/branch_point.cc b/src/maliput/geometry_base/branch_point.cc
index 26f12ef..a03e2f5 100644
--- a/src/maliput/geometry_base/branch_point.cc
+++ b/src/maliput/geometry_base/branch_point.cc
@@ -54,6 +54,10 @@ void BranchPoint::AddBranch(Lane* lane, api::LaneEnd::Which end, LaneEndSet* sid
   const api::LaneEnd lane_end{lane, end};
   MALIPUT_THROW_UNLESS(confluent_branches_.count(lane_end) == 0);
   MALIPUT_THROW_UNLESS(ongoing_branches_.count(lane_end) == 0);
+  // The lane end must not belong to another BranchPoint.
+  MALIPUT_THROW_UNLESS(
+      (end == api::LaneEnd::kStart ? lane->mutable_start_branch_point() : lane->mutable_finish_branch_point()) ==
+      nullptr);
   LaneEndSet* const other_side = (side == &a_side_) ? &b_side_ : &a_side_;
   side->Add(lane_end);
   confluent_branches_[lane_end] = side;
-- 
2.43.0


From 8834f74a359e597d1e3fe34d40ff48757c0b5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 03/48] fix: Rotation::Distance returned NaN for orientations
 sharing an axis up to rounding

---
 src/maliput/api/lane_data.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/lane_data.cc b/src/maliput/api/lane_data.cc
index 7540038..77385cb 100644
--- a/src/maliput/api/lane_data.cc
+++ b/src/maliput/api/lane_data.cc
@@ -29,6 +29,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/api/lane_data.h"
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 
@@ -84,10 +85,13 @@ double Rotation::Distance(const Rotation& rot) const {
   const InertialPosition bs = rot.Apply({1., 0., 0.});
   const InertialPosition br = rot.Apply({0., 1., 0.});
   const InertialPosition bh = rot.Apply({0., 0., 1.});
-  // Compute angles between pairs of unit vectors.
-  const double ds = std::acos(as.xyz().dot(bs.xyz()));
-  const double dr = std::acos(ar.xyz().dot(br.xyz()));
-  const double dh = std::acos(ah.xyz().dot(bh.xyz()));
+  // Compute angles between pairs of unit vectors. Rounding may take the dot products out of the domain of std::acos().
+  const auto angle = [](const InertialPosition& a, const InertialPosition& b) {
+    return std::acos(std::max(-1., std::min(1., a.xyz().dot(b.xyz()))));
+  };
+  const double ds = angle(as, bs);
+  const double dr = angle(ar, br);
+  const double dh = angle(ah, bh);
 
   return std::sqrt((ds * ds) + (dr * dr) + (dh * dh));
 }
-- 
2.43.0


From fd651e13bcd690aa9d02536fe3e9a3975045921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 04/48] fix: LaneSRoute::Intersects only looked at the first
 range of each lane of the other route

---
 src/maliput/api/regions.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/maliput/api/regions.cc b/src/maliput/api/regions.cc
index 00289e0..0f0038c 100644
--- a/src/maliput/api/regions.cc
+++ b/src/maliput/api/regions.cc
@@ -136,13 +136,12 @@ std::optional<LaneSRange> LaneSRange::GetIntersection(const LaneSRange& lane_s_r
 
 bool LaneSRoute::Intersects(const LaneSRoute& lane_s_route, double tolerance) const {
   for (const auto& s_range : ranges()) {
-    const auto lane_s_range_it =
-        std::find_if(lane_s_route.ranges().begin(), lane_s_route.ranges().end(),
-                     [s_range](const LaneSRange& lane_s_range) { return s_range.lane_id() == lane_s_range.lane_id(); });
-    if (lane_s_range_it != lane_s_route.ranges().end()) {
-      if (s_range.Intersects(*lane_s_range_it, tolerance)) {
-        return true;
-      }
+    // A route may have several ranges on the same lane.
+    if (std::any_of(lane_s_route.ranges().begin(), lane_s_route.ranges().end(),
+                    [&s_range, tolerance](const LaneSRange& lane_s_range) {
+                      return s_range.Intersects(lane_s_range, tolerance);
+                    })) {
+      return true;
     }
   }
   return false;
-- 
2.43.0


From e5703b223d1db9bad462875c71c1e5d2fe272cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 05/48] fix: IsIncluded ignored the ranges after the first one
 whose lane holds the position

---
 src/maliput/api/regions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maliput/api/regions.cc b/src/maliput/api/regions.cc
index 0f0038c..2fe2578 100644
--- a/src/maliput/api/regions.cc
+++ b/src/maliput/api/regions.cc
@@ -160,7 +160,9 @@ bool IsIncluded(const InertialPosition& inertial_position, const std::vector<Lan
         road_geometry->ById().GetLane(lane_s_range.lane_id())->ToLanePosition(inertial_position);
     if (result.distance <= linear_tolerance) {
       const double s_position = result.lane_position.s();
-      return lane_s_range.s_range().Intersects(SRange(s_position, s_position), linear_tolerance);
+      if (lane_s_range.s_range().Intersects(SRange(s_position, s_position), linear_tolerance)) {
+        return true;
+      }
     }
   }
   return false;
-- 
2.43.0


From 5775d3a800f38e0ea0d3059ef2cac6e604123caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 06/48] fix: SampleAheadWaypoints skipped the samples of ranges
 against the lane's direction

---
 src/maliput/api/road_geometry.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/road_geometry.cc b/src/maliput/api/road_geometry.cc
index 672c89d..30b2d96 100644
--- a/src/maliput/api/road_geometry.cc
+++ b/src/maliput/api/road_geometry.cc
@@ -229,13 +229,16 @@ std::vector<InertialPosition> RoadGeometry::DoSampleAheadWaypoints(const LaneSRo
     MALIPUT_THROW_UNLESS(lane != nullptr);
     const SRange lane_s_range = range.s_range();
 
-    double step_accumulator = previous_s_difference + lane_s_range.s0() + path_length_sampling_rate;
+    const double direction = lane_s_range.s1() >= lane_s_range.s0() ? 1. : -1.;
+    // Distance travelled along the range, whichever its direction is.
+    double step_accumulator = previous_s_difference + path_length_sampling_rate;
 
-    while (step_accumulator <= lane_s_range.s1()) {
-      waypoints.emplace_back(lane->ToInertialPosition(LanePosition(step_accumulator, 0.0, 0.0)));
+    while (step_accumulator <= lane_s_range.size()) {
+      waypoints.emplace_back(
+          lane->ToInertialPosition(LanePosition(lane_s_range.s0() + direction * step_accumulator, 0.0, 0.0)));
       step_accumulator += path_length_sampling_rate;
     }
-    previous_s_difference = step_accumulator - lane_s_range.s1() - path_length_sampling_rate;
+    previous_s_difference = step_accumulator - lane_s_range.size() - path_length_sampling_rate;
   }
   if (std::abs(previous_s_difference) > linear_tolerance()) {
     const Lane* last_lane = id.GetLane(ranges.back().lane_id());
-- 
2.43.0


From ec52c9a1d5c5b42c5a34eabd454da8b1066b71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 07/48] fix: RoadNetwork::Contains accepted positions on lanes
 of other networks

---
 src/maliput/api/road_network.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maliput/api/road_network.cc b/src/maliput/api/road_network.cc
index 7f4125d..4852466 100644
--- a/src/maliput/api/road_network.cc
+++ b/src/maliput/api/road_network.cc
@@ -89,7 +89,9 @@ RoadNetwork::RoadNetwork(std::unique_ptr<const RoadGeometry> road_geometry,
 }
 
 bool RoadNetwork::Contains(const RoadPosition& road_position) const {
-  return road_position.lane->Contains(road_position.pos);
+  // The lane must be one of this network's.
+  return road_geometry()->ById().GetLane(road_position.lane->id()) == road_position.lane &&
+         road_position.lane->Contains(road_position.pos);
 }
 
 bool RoadNetwork::Contains(const LaneId& lane_id) const {
-- 
2.43.0


From 6511a6eae9773719442da0dfe75b40e0506efd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 08/48] fix: Rule::State equality ignored ids that only the
 other state holds

---
 src/maliput/api/rules/rule.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/rules/rule.cc b/src/maliput/api/rules/rule.cc
index 8d3e6cd..a7c2105 100644
--- a/src/maliput/api/rules/rule.cc
+++ b/src/maliput/api/rules/rule.cc
@@ -29,6 +29,8 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/api/rules/rule.h"
 
+#include <algorithm>
+
 #include "maliput/common/maliput_throw.h"
 
 namespace maliput {
@@ -50,10 +52,8 @@ bool CompareMapAttributes(const std::map<std::string, std::vector<T>>& map_a,
     if (it == map_b.end()) {
       return false;
     }
-    for (const auto& value_id : key_val.second) {
-      if (std::find(it->second.begin(), it->second.end(), value_id) == it->second.end()) {
-        return false;
-      }
+    if (!std::is_permutation(key_val.second.begin(), key_val.second.end(), it->second.begin(), it->second.end())) {
+      return false;
     }
   }
   return true;
-- 
2.43.0


From 2bc461d3fb7196743681fa2d99d90e101297eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 09/48] fix: ManualRulebook could not remove a rule whose zone
 holds many ranges of one lane

---
 src/maliput/base/manual_rulebook.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/maliput/base/manual_rulebook.cc b/src/maliput/base/manual_rulebook.cc
index 8d53c49..9833be9 100644
--- a/src/maliput/base/manual_rulebook.cc
+++ b/src/maliput/base/manual_rulebook.cc
@@ -280,9 +280,14 @@ class ManualRulebook::Impl {
 
     // Removes all associations involving `id` and `lane_id`.
     void RemoveRanges(const IdVariant& id, const LaneId& lane_id) {
-      map_.at(lane_id).erase(id);
-      if (map_[lane_id].empty()) {
-        map_.erase(lane_id);
+      const auto it = map_.find(lane_id);
+      if (it == map_.end()) {
+        // A zone may hold many ranges of the same lane, whose associations are all gone by now.
+        return;
+      }
+      it->second.erase(id);
+      if (it->second.empty()) {
+        map_.erase(it);
       }
     }
 
-- 
2.43.0


From 3c570c95c833c63df2e9006a1e06958503c3e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 10/48] fix: IntersectionBook dereferenced the moved-from
 intersection when refusing a repeated ID

---
 src/maliput/base/intersection_book.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maliput/base/intersection_book.cc b/src/maliput/base/intersection_book.cc
index b8a19e9..b133f71 100644
--- a/src/maliput/base/intersection_book.cc
+++ b/src/maliput/base/intersection_book.cc
@@ -53,9 +53,10 @@ class IntersectionBook::Impl {
 
   void AddIntersection(std::unique_ptr<Intersection> intersection) {
     MALIPUT_THROW_UNLESS(intersection != nullptr);
-    auto result = book_.emplace(intersection->id(), std::move(intersection));
+    const Intersection::Id id = intersection->id();
+    auto result = book_.emplace(id, std::move(intersection));
     if (!result.second) {
-      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + intersection->id().string());
+      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + id.string());
     }
   }
 
-- 
2.43.0


From c94d777a9ef88febb8b1cb88e1b6527351b097bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 11/48] fix: PhaseRing read absent bulb states and accepted
 phases with different sets of them

---
 src/maliput/api/rules/phase_ring.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maliput/api/rules/phase_ring.cc b/src/maliput/api/rules/phase_ring.cc
index daee203..ceff15e 100644
--- a/src/maliput/api/rules/phase_ring.cc
+++ b/src/maliput/api/rules/phase_ring.cc
@@ -66,6 +66,9 @@ void VerifyAllPhasesHaveSameCoverage(const PhaseRing::Id& id, const std::vector<
                            ") has duplicated discrete value rule states");
     }
     // Require both set of bulb states to be defined or undefined together.
+    MALIPUT_VALIDATE(phase.bulb_states().has_value() == r.bulb_states().has_value(),
+                     "PhaseRing(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
+                         ") must both define or both omit bulb_states.");
     if (r.bulb_states() != std::nullopt) {
       MALIPUT_VALIDATE(phase.bulb_states()->size() == r.bulb_states()->size(),
                        "Phase(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
-- 
2.43.0


From 448b935f4dbbce012b40915673645cd0b619fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 12/48] fix: PhaseRing accepted next phases which are not among
 its phases

---
 src/maliput/api/rules/phase_ring.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/maliput/api/rules/phase_ring.cc b/src/maliput/api/rules/phase_ring.cc
index ceff15e..cd664a3 100644
--- a/src/maliput/api/rules/phase_ring.cc
+++ b/src/maliput/api/rules/phase_ring.cc
@@ -29,6 +29,8 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/api/rules/phase_ring.h"
 
+#include <algorithm>
+
 #include <utility>
 
 #include "maliput/common/maliput_throw.h"
@@ -92,6 +94,14 @@ void VerifyNextPhases(const PhaseRing::Id& id, const std::vector<Phase>& phases,
         next_phases.find(phase.id()) != next_phases.end(),
         "In PhaseRing(" + id.string() + "), the Phase(" + phase.id().string() + ") is not in next_phases.");
   }
+  for (const auto& phase_id_to_next_phases : next_phases) {
+    for (const PhaseRing::NextPhase& next_phase : phase_id_to_next_phases.second) {
+      MALIPUT_VALIDATE(std::any_of(phases.begin(), phases.end(),
+                                   [&next_phase](const Phase& phase) { return phase.id() == next_phase.id; }),
+                       "In PhaseRing(" + id.string() + "), the next Phase(" + next_phase.id.string() + ") of Phase(" +
+                           phase_id_to_next_phases.first.string() + ") is not in phases.");
+    }
+  }
 }
 
 }  // namespace
-- 
2.43.0


From 998e9e1b6447ebb56e86ab2aa34828a244b193e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 13/48] fix: ManualPhaseRingBook kept parts of a ring it had
 refused

---
 src/maliput/base/manual_phase_ring_book.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/maliput/base/manual_phase_ring_book.cc b/src/maliput/base/manual_phase_ring_book.cc
index cb20aae..04de349 100644
--- a/src/maliput/base/manual_phase_ring_book.cc
+++ b/src/maliput/base/manual_phase_ring_book.cc
@@ -51,27 +51,35 @@ class ManualPhaseRingBook::Impl {
   ~Impl() {}
 
   void AddPhaseRing(const PhaseRing& ring) {
-    auto result = ring_book_.emplace(ring.id(), ring);
-    if (!result.second) {
+    // Everything is verified before anything is added: a rejected ring must not leave traces.
+    if (ring_book_.find(ring.id()) != ring_book_.end()) {
       throw std::logic_error("Attempted to add multiple PhaseRing instances with ID " + ring.id().string());
     }
     const Phase& phase = ring.phases().begin()->second;
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wdeprecated-declarations"
     for (const auto& element : phase.rule_states()) {
-      auto r = right_of_way_rule_book_.emplace(element.first, ring.id());
-#pragma GCC diagnostic pop
-      if (!r.second) {
+      if (right_of_way_rule_book_.find(element.first) != right_of_way_rule_book_.end()) {
         throw std::logic_error("RightOfWayRule with ID " + element.first.string() +
                                " is part of more than one PhaseRing.");
       }
     }
+#pragma GCC diagnostic pop
     for (const auto& element : phase.discrete_value_rule_states()) {
-      auto r = rule_book_.emplace(element.first, ring.id());
-      if (!r.second) {
+      if (rule_book_.find(element.first) != rule_book_.end()) {
         throw std::logic_error("Rule with ID " + element.first.string() + " is part of more than one PhaseRing.");
       }
     }
+    ring_book_.emplace(ring.id(), ring);
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+    for (const auto& element : phase.rule_states()) {
+      right_of_way_rule_book_.emplace(element.first, ring.id());
+    }
+#pragma GCC diagnostic pop
+    for (const auto& element : phase.discrete_value_rule_states()) {
+      rule_book_.emplace(element.first, ring.id());
+    }
   }
 
   void RemovePhaseRing(const PhaseRing::Id& ring_id) {
-- 
2.43.0


From 3fdb10c73f0bd00d43b51f52b0363887da3ee52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 14/48] fix: rule comparisons missed differences or threw

---
 src/maliput/api/rules/compare.cc | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/maliput/api/rules/compare.cc b/src/maliput/api/rules/compare.cc
index d91cd16..fe7f8db 100644
--- a/src/maliput/api/rules/compare.cc
+++ b/src/maliput/api/rules/compare.cc
@@ -45,6 +45,13 @@ namespace rules {
 common::ComparisonResult<RuleStates> IsEqual(const RuleStates& a, const RuleStates& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.size()", "b.size()", a.size(), b.size()));
+  for (const auto& rule_state : a) {
+    const auto b_it = b.find(rule_state.first);
+    MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b.cend())", "true", (b_it != b.cend()), true));
+    if (b_it != b.cend()) {
+      MALIPUT_ADD_RESULT(c, api::IsEqual("rule_state.second", "b_it->second", rule_state.second, b_it->second));
+    }
+  }
   return {c.result()};
 }
 
@@ -52,8 +59,9 @@ common::ComparisonResult<RuleStates> IsEqual(const RuleStates& a, const RuleStat
 
 common::ComparisonResult<DiscreteValueRule::DiscreteValue> IsEqual(const DiscreteValueRule::DiscreteValue& a,
                                                                    const DiscreteValueRule::DiscreteValue& b) {
-  if (a.value != b.value) {
-    return {"DiscreteValues are different: " + a.value + " != " + b.value};
+  if (a != b) {
+    return {"DiscreteValues are different: " + a.value + " (severity: " + std::to_string(a.severity) +
+            ") != " + b.value + " (severity: " + std::to_string(b.severity) + ")"};
   }
   return {std::nullopt};
 }
@@ -64,7 +72,11 @@ common::ComparisonResult<std::unordered_map<Rule::Id, DiscreteValueRule::Discret
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.size()", "b.size()", a.size(), b.size()));
   for (const auto& discrete_value_rule_state : a) {
-    MALIPUT_ADD_RESULT(c, IsEqual(b.at(discrete_value_rule_state.first), discrete_value_rule_state.second));
+    const auto b_it = b.find(discrete_value_rule_state.first);
+    MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b.cend())", "true", (b_it != b.cend()), true));
+    if (b_it != b.cend()) {
+      MALIPUT_ADD_RESULT(c, IsEqual(discrete_value_rule_state.second, b_it->second));
+    }
   }
   return {c.result()};
 }
@@ -337,6 +349,8 @@ common::ComparisonResult<std::unordered_map<TrafficLight::Id, std::vector<BulbGr
       if (b_it == b.cend()) {
         break;
       }
+      MALIPUT_ADD_RESULT(c, api::IsEqual("traffic_light_bulb_group.second.size()", "b_it->second.size()",
+                                         traffic_light_bulb_group.second.size(), b_it->second.size()));
       for (const BulbGroup::Id& bulb_group_id : traffic_light_bulb_group.second) {
         const auto& b_bulb_group_id_it = std::find(b_it->second.cbegin(), b_it->second.cend(), bulb_group_id);
         MALIPUT_ADD_RESULT(c, api::IsEqual("(b_bulb_group_id_it != b_it->second.cend())", "true",
@@ -378,10 +392,14 @@ common::ComparisonResult<std::optional<BulbStates>> IsEqual(const std::optional<
                                                             const std::optional<BulbStates>& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.has_value()", "b.has_value()", a.has_value(), b.has_value()));
-  if (a.has_value()) {
+  if (a.has_value() && b.has_value()) {
     MALIPUT_ADD_RESULT(c, api::IsEqual("a->size()", "b->size()", a->size(), b->size()));
     for (const auto& bulb_state : *a) {
-      MALIPUT_ADD_RESULT(c, IsEqual(b->at(bulb_state.first), bulb_state.second));
+      const auto b_it = b->find(bulb_state.first);
+      MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b->cend())", "true", (b_it != b->cend()), true));
+      if (b_it != b->cend()) {
+        MALIPUT_ADD_RESULT(c, IsEqual(bulb_state.second, b_it->second));
+      }
     }
   }
   return {c.result()};
@@ -391,7 +409,7 @@ common::ComparisonResult<std::optional<double>> IsEqual(const std::optional<doub
                                                         const std::optional<double>& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.has_value()", "b.has_value()", a.has_value(), b.has_value()));
-  if (a.has_value()) {
+  if (a.has_value() && b.has_value()) {
     MALIPUT_ADD_RESULT(c, api::IsEqual("a.value()", "b.value()", a.value(), b.value()));
   }
   return {c.result()};
-- 
2.43.0


From 76f6910ef38c51edd90169fae66138ba7bf8c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 15/48] fix: relative comparisons of vectors and matrices
 missed infinite differences

---
 src/maliput/math/compare.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/maliput/math/compare.cc b/src/maliput/math/compare.cc
index aefa626..c3315ac 100644
--- a/src/maliput/math/compare.cc
+++ b/src/maliput/math/compare.cc
@@ -58,6 +58,12 @@ common::ComparisonResult<math::VectorBase<N, Derived>> CompareVectors(const math
       return {"Nan mismatch at (" + std::to_string(i) + "):\nv1 =\n" + v1.to_str() + "\nv2 =\n" + v2.to_str()};
     }
 
+    // Check for case where one value is infinite and the other is not the same infinity: a relative tolerance would be
+    // infinite too.
+    if (std::isinf(v1[i]) || std::isinf(v2[i])) {
+      return {"Infinity mismatch at (" + std::to_string(i) + "):\nv1 =\n" + v1.to_str() + "\nv2 =\n" + v2.to_str()};
+    }
+
     // Determine whether the difference between the two vectors is less than
     // the tolerance.
     const auto delta = std::abs(v1[i] - v2[i]);
@@ -112,6 +118,13 @@ common::ComparisonResult<math::Matrix<N>> CompareMatrices(const math::Matrix<N>&
                 "\nm2 =\n" + m2.to_str()};
       }
 
+      // Check for case where one value is infinite and the other is not the same infinity: a relative tolerance would
+      // be infinite too.
+      if (std::isinf(m1[ii][jj]) || std::isinf(m2[ii][jj])) {
+        return {"Infinity mismatch at (" + std::to_string(ii) + ", " + std::to_string(jj) + "):\nm1 =\n" +
+                m1.to_str() + "\nm2 =\n" + m2.to_str()};
+      }
+
       // Determine whether the difference between the two matrices is less than
       // the tolerance.
       const auto delta = std::abs(m1[ii][jj] - m2[ii][jj]);
-- 
2.43.0


From 9339b9710c098632e7ea9cf4947d32413dee9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 16/48] fix: FindLaneSequences removed sequences without
 U-turns and kept ones with them

---
 src/maliput/routing/find_lane_sequences.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/routing/find_lane_sequences.cc b/src/maliput/routing/find_lane_sequences.cc
index fbf6d75..5fe002e 100644
--- a/src/maliput/routing/find_lane_sequences.cc
+++ b/src/maliput/routing/find_lane_sequences.cc
@@ -143,7 +143,7 @@ bool HasUTurn(const std::vector<const Lane*>& lane_sequence) {
     // Obtain the following connection_set.
     const ConnectionSet next_connection_set = BuildConnectionSet(lane_sequence[i], lane_sequence[i + 1]);
     // Evaluate if there is a U turn.
-    if (next_connection_set.ongoing.end == connection_set.incoming.end) {
+    if (next_connection_set.incoming.end == connection_set.ongoing.end) {
       return true;
     }
     connection_set = next_connection_set;
-- 
2.43.0


From 59ebbbc7d339ff6af90c6a2d0da701aaa023e8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 17/48] fix: DeriveLaneSRoutes jumped between the ends of lanes
 which are connected at both of them

---
 src/maliput/routing/derive_lane_s_routes.cc | 60 ++++++++++++++-------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/maliput/routing/derive_lane_s_routes.cc b/src/maliput/routing/derive_lane_s_routes.cc
index 0d7a512..f219cfc 100644
--- a/src/maliput/routing/derive_lane_s_routes.cc
+++ b/src/maliput/routing/derive_lane_s_routes.cc
@@ -52,6 +52,32 @@ bool LaneExistsInSet(const api::LaneEndSet* set, const api::Lane& lane) {
   return false;
 }
 
+// The ends of two lanes, one after the other, at the border between them.
+struct Border {
+  api::LaneEnd::Which exit{};
+  api::LaneEnd::Which entry{};
+};
+
+// Finds the border between @p lane and @p next_lane. When they are connected at both ends of @p lane, it will be the one
+// at the @p preferred_exit of @p lane.
+//
+// Returns std::nullopt when @p lane and @p next_lane are not connected.
+std::optional<Border> FindBorder(const api::Lane& lane, const api::Lane& next_lane,
+                                 api::LaneEnd::Which preferred_exit) {
+  const api::LaneEnd::Which other_exit =
+      preferred_exit == api::LaneEnd::kFinish ? api::LaneEnd::kStart : api::LaneEnd::kFinish;
+  for (const api::LaneEnd::Which exit : {preferred_exit, other_exit}) {
+    const api::LaneEndSet* set = lane.GetOngoingBranches(exit);
+    MALIPUT_THROW_UNLESS(set != nullptr);
+    for (int i = 0; i < set->size(); ++i) {
+      if (set->get(i).lane == &next_lane) {
+        return Border{exit, set->get(i).end};
+      }
+    }
+  }
+  return std::nullopt;
+}
+
 }  // namespace
 
 std::optional<double> DetermineEdgeS(const api::Lane& lane, const api::Lane& next_lane) {
@@ -88,27 +114,23 @@ std::vector<api::LaneSRoute> DeriveLaneSRoutes(const api::RoadPosition& start, c
     }
 
     // Handles the case when lane_sequence has a length greater than 1.
-    for (size_t i = 0; i < lane_sequence.size(); ++i) {
+    MALIPUT_THROW_UNLESS(lane_sequence.front()->id() == start.lane->id());
+    MALIPUT_THROW_UNLESS(lane_sequence.back()->id() == end.lane->id());
+    double range_start_s = start_s;
+    api::LaneEnd::Which preferred_exit = api::LaneEnd::kFinish;
+    for (size_t i = 0; i + 1 < lane_sequence.size(); ++i) {
       const api::Lane* lane = lane_sequence.at(i);
-      MALIPUT_THROW_UNLESS(lane != nullptr);
-      if (i == 0) {
-        MALIPUT_THROW_UNLESS(lane->id() == start.lane->id());
-        const std::optional<double> first_end_s = DetermineEdgeS(*lane, *lane_sequence.at(1));
-        MALIPUT_THROW_UNLESS(first_end_s.has_value());
-        ranges.emplace_back(lane->id(), api::SRange(start_s, first_end_s.value()));
-      } else if (i + 1 == lane_sequence.size()) {
-        MALIPUT_THROW_UNLESS(lane->id() == end.lane->id());
-        MALIPUT_THROW_UNLESS(i > 0);
-        const std::optional<double> last_start_s = DetermineEdgeS(*lane, *lane_sequence.at(i - 1));
-        MALIPUT_THROW_UNLESS(last_start_s.has_value());
-        ranges.emplace_back(lane->id(), api::SRange(last_start_s.value(), end_s));
-      } else {
-        const std::optional<double> middle_start_s = DetermineEdgeS(*lane, *lane_sequence.at(i - 1));
-        const std::optional<double> middle_end_s = DetermineEdgeS(*lane, *lane_sequence.at(i + 1));
-        MALIPUT_THROW_UNLESS(middle_start_s && middle_end_s);
-        ranges.emplace_back(lane->id(), api::SRange(middle_start_s.value(), middle_end_s.value()));
-      }
+      const api::Lane* next_lane = lane_sequence.at(i + 1);
+      MALIPUT_THROW_UNLESS(lane != nullptr && next_lane != nullptr);
+      const std::optional<Border> border = FindBorder(*lane, *next_lane, preferred_exit);
+      MALIPUT_THROW_UNLESS(border.has_value());
+      ranges.emplace_back(
+          lane->id(), api::SRange(range_start_s, border->exit == api::LaneEnd::kFinish ? lane->length() : 0.));
+      range_start_s = border->entry == api::LaneEnd::kFinish ? next_lane->length() : 0.;
+      // Lanes are traversed from one end to the other.
+      preferred_exit = border->entry == api::LaneEnd::kFinish ? api::LaneEnd::kStart : api::LaneEnd::kFinish;
     }
+    ranges.emplace_back(end.lane->id(), api::SRange(range_start_s, end_s));
     result.emplace_back(ranges);
   }
   return result;
-- 
2.43.0


From ee81e2533cd70cb58b788f57b71df97f90557856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 18/48] fix: BuildGraph lost branch points and split nodes of
 segments which share some of them

---
 src/maliput/routing/graph/graph.cc | 85 ++++++++++++++++--------------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/src/maliput/routing/graph/graph.cc b/src/maliput/routing/graph/graph.cc
index 0f06863..00fffcd 100644
--- a/src/maliput/routing/graph/graph.cc
+++ b/src/maliput/routing/graph/graph.cc
@@ -28,9 +28,10 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/routing/graph/graph.h"
 
+#include <algorithm>
 #include <functional>
-#include <optional>
 #include <string>
+#include <vector>
 
 #include "maliput/common/maliput_throw.h"
 
@@ -55,43 +56,50 @@ std::set<const api::BranchPoint*> GetBranchPoints(const api::Segment* segment, c
   return branch_points;
 }
 
-// Finds a Node in @p graph by containing at least one branch point in @p branch_points.
+// Gets the Node in @p graph that holds @p branch_points.
 //
-// @param graph The Graph containing the Nodes to search through.
-// @param branch_points The set of api::BranchPoints whose items should be found in one of the Nodes in @p graph.
-// @return An optional containing the matched Node. Otherwise, std::nullopt.
-std::optional<Node> FindNode(const Graph& graph, std::set<const api::BranchPoint*> branch_points) {
-  for (const auto& id_node : graph.nodes) {
-    if (std::any_of(branch_points.begin(), branch_points.end(), [n = id_node.second](const auto bp) {
+// When no Node in @p graph holds any of @p branch_points, a new Node is added to @p graph. Otherwise, @p branch_points
+// are added to the Node that holds some of them. When there are many of those, they are the same extent: they are merged
+// into one.
+//
+// @param branch_points The set of api::BranchPoints the Node will hold.
+// @param id_generator A functor to obtain an ID for Nodes.
+// @param graph The Graph to look for the matching Node.
+// @return The ID of the Node in @p graph whose api::BranchPoints set contains @p branch_points.
+NodeId GetNode(const std::set<const api::BranchPoint*>& branch_points, std::function<NodeId()> id_generator,
+               Graph* graph) {
+  std::vector<NodeId> node_ids;
+  for (const auto& id_node : graph->nodes) {
+    if (std::any_of(branch_points.begin(), branch_points.end(), [&n = id_node.second](const auto bp) {
           return n.branch_points.find(bp) != n.branch_points.end();
         })) {
-      return {id_node.second};
+      node_ids.push_back(id_node.first);
     }
   }
-  return {};
-}
-
-// Gets a Node from @p graph, or creates one, with @p branch_points.
-//
-// When there is no Node found in @p graph, a new Node is created and returned. Note that
-// @p graph is not changed, but the returned Node might be changed relative to what's in
-// @p graph as it'll always contain at least @p branch_points.
-//
-// @param graph The Graph to look for the matching Node.
-// @param branch_points The set of api::BranchPoints to match the Node in @p graph.
-// @param id_generator A functor to obtain an ID for Nodes.
-// @return A Node whose api::BranchPoints set contains @p branch_points.
-Node GetNode(const Graph& graph, std::set<const api::BranchPoint*> branch_points,
-             std::function<NodeId()> id_generator) {
-  const std::optional<Node> node_result = FindNode(graph, branch_points);
-  if (node_result.has_value()) {
-    Node node = node_result.value();
-    for (const api::BranchPoint* bp : branch_points) {
-      node.branch_points.insert(bp);
+  if (node_ids.empty()) {
+    const NodeId node_id = id_generator();
+    graph->nodes.emplace(node_id, Node{node_id, branch_points, {}});
+    return node_id;
+  }
+  const NodeId node_id = node_ids.front();
+  Node& node = graph->nodes.at(node_id);
+  node.branch_points.insert(branch_points.begin(), branch_points.end());
+  for (size_t i = 1u; i < node_ids.size(); ++i) {
+    const Node& merged_node = graph->nodes.at(node_ids[i]);
+    node.branch_points.insert(merged_node.branch_points.begin(), merged_node.branch_points.end());
+    node.edges.insert(merged_node.edges.begin(), merged_node.edges.end());
+    for (const EdgeId& edge_id : merged_node.edges) {
+      Edge& edge = graph->edges.at(edge_id);
+      if (edge.node_a == merged_node.id) {
+        edge.node_a = node_id;
+      }
+      if (edge.node_b == merged_node.id) {
+        edge.node_b = node_id;
+      }
     }
-    return node_result.value();
+    graph->nodes.erase(node_ids[i]);
   }
-  return Node{id_generator(), branch_points, {}};
+  return node_id;
 }
 
 }  // namespace
@@ -112,17 +120,16 @@ Graph BuildGraph(const api::RoadGeometry* rg) {
       const std::set<const api::BranchPoint*> end_branch_points =
           GetBranchPoints(segment, api::LaneEnd::Which::kFinish);
 
-      Node start_node = GetNode(graph, start_branch_points, node_id_generator);
-      Node end_node = GetNode(graph, end_branch_points, node_id_generator);
-
-      Edge edge{EdgeId(segment->id().string()), segment, start_node.id, end_node.id};
+      GetNode(start_branch_points, node_id_generator, &graph);
+      const NodeId end_node_id = GetNode(end_branch_points, node_id_generator, &graph);
+      // The Node at the end may have been merged with the one at the start.
+      const NodeId start_node_id = GetNode(start_branch_points, node_id_generator, &graph);
 
-      start_node.edges.insert(edge.id);
-      end_node.edges.insert(edge.id);
+      Edge edge{EdgeId(segment->id().string()), segment, start_node_id, end_node_id};
 
+      graph.nodes.at(edge.node_a).edges.insert(edge.id);
+      graph.nodes.at(edge.node_b).edges.insert(edge.id);
       graph.edges.insert_or_assign(edge.id, edge);
-      graph.nodes.insert_or_assign(start_node.id, start_node);
-      graph.nodes.insert_or_assign(end_node.id, end_node);
     }
   }
 
-- 
2.43.0


From 0f398b0027de7990de2b128b71bc9268b8714dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 19/48] fix: DistanceRouter matched lanes by their order across
 segments of opposite directions when looking for lane switches

---
 src/maliput/base/distance_router.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/maliput/base/distance_router.cc b/src/maliput/base/distance_router.cc
index b178bdd..ab7a80a 100644
--- a/src/maliput/base/distance_router.cc
+++ b/src/maliput/base/distance_router.cc
@@ -116,9 +116,27 @@ bool HasLaneSwitch(const routing::Route& route) {
     if (!end_position_index.has_value()) {
       return true;
     }
-    // Update the start_lane for the next iteration.
+    // Update the start_lane for the next iteration: the one in the next routing::Phase that goes on from this lane.
     if (phase_index != route.size() - 1) {
-      start_lane = route.Get(phase_index + 1).start_positions()[end_position_index.value()].lane;
+      const api::RoadPosition& end_position = phase.end_positions()[end_position_index.value()];
+      const api::LaneEndSet* ongoing = start_lane->GetOngoingBranches(
+          end_position.pos.s() == 0. ? api::LaneEnd::Which::kStart : api::LaneEnd::Which::kFinish);
+      const std::vector<api::RoadPosition>& start_positions = route.Get(phase_index + 1).start_positions();
+      const auto next_position =
+          std::find_if(start_positions.begin(), start_positions.end(), [ongoing](const api::RoadPosition& position) {
+            const api::LaneEnd::Which end =
+                position.pos.s() == 0. ? api::LaneEnd::Which::kStart : api::LaneEnd::Which::kFinish;
+            for (int i = 0; i < ongoing->size(); ++i) {
+              if (ongoing->get(i).lane == position.lane && ongoing->get(i).end == end) {
+                return true;
+              }
+            }
+            return false;
+          });
+      if (next_position == start_positions.end()) {
+        return true;
+      }
+      start_lane = next_position->lane;
     }
   }
   return false;
-- 
2.43.0


From d761854ab339d4e549c2af85763e038e70df5b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:39 +0000
Subject: [PATCH 20/48] fix: DistanceRouter missed routes between segments
 which meet at the same ends and threw on undrivable ones

---
 src/maliput/base/distance_router.cc | 172 +++++++++++++++-------------
 1 file changed, 93 insertions(+), 79 deletions(-)

diff --git a/src/maliput/base/distance_router.cc b/src/maliput/base/distance_router.cc
index ab7a80a..3e63e6a 100644
--- a/src/maliput/base/distance_router.cc
+++ b/src/maliput/base/distance_router.cc
@@ -256,65 +256,81 @@ routing::Phase MakePhase(int index, const routing::graph::Edge& edge, double lan
   return routing::Phase{index, lane_s_range_tolerance, start_positions, end_positions, lane_s_ranges, &road_network};
 }
 
-// Computes all api::RoadPositions for @p ref ref_edge at @p ref_end side when connecting with @p target_edge.
+// A sequence of routing::graph::Edges and the ends of them at which they meet.
+struct EdgeSequence {
+  // The ends at which an edge and the next one meet.
+  struct Joint {
+    api::LaneEnd::Which exit{};
+    api::LaneEnd::Which entry{};
+  };
+  std::vector<routing::graph::Edge> edges;
+  // The i-th item is between the i-th edge and the next one.
+  std::vector<Joint> joints;
+};
+
+// Computes all api::RoadPositions of @p ref_edge at its @p ref_end side that go on to @p target_edge at its
+// @p target_end side.
 //
 // @param ref_edge The reference routing::graph::Edge to compute the api::RoadPositions for.
 // @param ref_end Indicates api::LaneEnd::Which side of the api::Lanes from @p ref_edge to take the positions.
 // @param target_edge The connecting routing::graph::Edge.
-// @return A vector with the api::RoadPositions to that connect @p ref_edge with @p target_edge at @p ref_end side.
-// @throws common::assertion_error When the return vector is empty.
+// @param target_end Indicates api::LaneEnd::Which side of the api::Lanes from @p target_edge connects.
+// @return A vector with the api::RoadPositions that connect @p ref_edge with @p target_edge. It is empty when it is not
+// possible to drive from one to the other.
 std::vector<api::RoadPosition> ComputeAllRoadPositions(const routing::graph::Edge& ref_edge,
                                                        const api::LaneEnd::Which ref_end,
-                                                       const routing::graph::Edge& target_edge) {
-  auto is_lane_connected = [segment = target_edge.segment, end = ref_end](const api::Lane* lane,
-                                                                          bool is_confluent) -> bool {
-    const api::LaneEndSet* lane_end_set =
-        is_confluent ? lane->GetConfluentBranches(end) : lane->GetOngoingBranches(end);
+                                                       const routing::graph::Edge& target_edge,
+                                                       const api::LaneEnd::Which target_end) {
+  auto is_lane_connected = [&target_edge, ref_end, target_end](const api::Lane* lane) {
+    const api::LaneEndSet* lane_end_set = lane->GetOngoingBranches(ref_end);
     for (int i = 0; i < lane_end_set->size(); ++i) {
       const api::LaneEnd lane_end = lane_end_set->get(i);
-      if (lane_end.lane->segment() == segment) {
+      if (lane_end.lane->segment() == target_edge.segment && lane_end.end == target_end) {
         return true;
       }
     }
     return false;
   };
-  auto process_positions = [segment = ref_edge.segment, end = ref_end, is_lane_connected](bool is_confluent) {
-    std::vector<api::RoadPosition> positions;
-    for (int i = 0; i < segment->num_lanes(); ++i) {
-      const api::Lane* lane = segment->lane(i);
-      if (is_lane_connected(lane, is_confluent)) {
-        positions.emplace_back(lane,
-                               api::LanePosition{end == api::LaneEnd::Which::kStart ? 0. : lane->length(), 0., 0.});
-      }
+  std::vector<api::RoadPosition> positions;
+  for (int i = 0; i < ref_edge.segment->num_lanes(); ++i) {
+    const api::Lane* lane = ref_edge.segment->lane(i);
+    if (is_lane_connected(lane)) {
+      positions.emplace_back(lane,
+                             api::LanePosition{ref_end == api::LaneEnd::Which::kStart ? 0. : lane->length(), 0., 0.});
     }
-    return positions;
-  };
-  constexpr bool kIsConfluent{true};
-  constexpr bool kIsOngoing{!kIsConfluent};
-  std::vector<api::RoadPosition> positions = process_positions(kIsConfluent);
-  if (positions.empty()) {
-    positions = process_positions(kIsOngoing);
   }
-  MALIPUT_THROW_UNLESS(!positions.empty());
   return positions;
 }
 
+// Whether each edge in @p edge_sequence goes on to the next one.
+bool IsDrivable(const EdgeSequence& edge_sequence) {
+  for (size_t i = 0u; i < edge_sequence.joints.size(); ++i) {
+    const EdgeSequence::Joint& joint = edge_sequence.joints[i];
+    if (ComputeAllRoadPositions(edge_sequence.edges[i], joint.exit, edge_sequence.edges[i + 1], joint.entry).empty()) {
+      return false;
+    }
+  }
+  return true;
+}
+
 // Optionally introduces routing::graph::Edges at the beginning or end of @p edge_sequence to make sure @p start and
 // @p end are included in it.
 //
 // Points fall always into routing::graph::Edges and the routing query requires an entry and exit routing::graph::Node.
 // Because there is no notion of direction of travel, i.e. routing::graph::Edges are not directed, the paths may miss
 // the edge that contains @p start and / or @p end. This function will introduce the missing routing::graph::Edge at
-// the beginning and end of the sequence in @p edge_sequences when they are missing.
+// the beginning and end of the sequence in @p edge_sequences when they are missing. Sequences that cannot be driven with
+// them are removed.
 //
 // @param graph The routing::graph::Graph to extract the routing::graph::Edges containing @p start and @p end.
 // @param start The start api::RoadPosition. It must be valid.
 // @param end The end api::RoadPosition. It must be valid.
-// @param edge_sequences The vector of routing::graph::Edge sequences to amend.
-// @return A vector of routing::graph::Edge sequences of the same size as @p edge_sequences whose sequences have at
-// the beginning and at the end a routing::graph::Edge that contains @p start and @p end points respectively.
+// @param edge_sequences The vector of routing::graph::Edge sequences to amend. They go from the routing::graph::Node at
+// the start of @p start's api::Lane to the one at the finish of @p end's api::Lane.
+// @return A vector of EdgeSequences that have at the beginning and at the end a routing::graph::Edge that contains
+// @p start and @p end points respectively.
 // @throws common::assertion_error When @p start or @p end are invalid api::RoadPositions.
-std::vector<std::vector<routing::graph::Edge>> MaybeAddStartAndEndEdges(
+std::vector<EdgeSequence> MaybeAddStartAndEndEdges(
     const routing::graph::Graph& graph, const api::RoadPosition& start, const api::RoadPosition& end,
     const std::vector<std::vector<routing::graph::Edge>>& edge_sequences) {
   MALIPUT_THROW_UNLESS(start.lane != nullptr);
@@ -325,20 +341,39 @@ std::vector<std::vector<routing::graph::Edge>> MaybeAddStartAndEndEdges(
   const routing::graph::Edge& start_edge = graph.edges.at(start_edge_id);
   const routing::graph::Edge& end_edge = graph.edges.at(end_edge_id);
 
-  std::vector<std::vector<routing::graph::Edge>> result;
+  std::vector<EdgeSequence> result;
 
   for (const auto& edge_sequence : edge_sequences) {
-    std::vector<routing::graph::Edge> edge_sequence_to_return(edge_sequence);
-    // When edge_sequence is empty, the start and end routing::graph::Edge are the same thus we simply add the
-    // first one as if the edge is missing.
+    EdgeSequence edge_sequence_to_return;
+    std::vector<routing::graph::Edge>& edges = edge_sequence_to_return.edges;
+    // The routing::graph::Node between each edge and the next one.
+    std::vector<routing::graph::NodeId> nodes;
+    routing::graph::NodeId node = start_edge.node_a;
+    // When edge_sequence is empty, @p start and @p end connect at the start and finish of their routing::graph::Edges
+    // thus we simply add the first one as if the edge is missing.
     if (edge_sequence.empty() || edge_sequence.front().segment != start_edge.segment) {
-      edge_sequence_to_return.insert(edge_sequence_to_return.begin(), start_edge);
+      edges.push_back(start_edge);
+      nodes.push_back(node);
+    }
+    for (const routing::graph::Edge& edge : edge_sequence) {
+      edges.push_back(edge);
+      node = edge.node_a == node ? edge.node_b : edge.node_a;
+      nodes.push_back(node);
     }
     // Adds the end routing::graph::Edge when it is missing.
-    if (edge_sequence.back().segment != end_edge.segment) {
-      edge_sequence_to_return.push_back(end_edge);
+    if (edges.back().segment != end_edge.segment) {
+      edges.push_back(end_edge);
+    }
+    // Only the first and last edges, when they were missing, might have the same routing::graph::Node at both ends. Then,
+    // they are left at their start and entered at their finish respectively.
+    for (size_t i = 0u; i + 1u < edges.size(); ++i) {
+      edge_sequence_to_return.joints.push_back(
+          {edges[i].node_a == nodes[i] ? api::LaneEnd::Which::kStart : api::LaneEnd::Which::kFinish,
+           edges[i + 1u].node_b == nodes[i] ? api::LaneEnd::Which::kFinish : api::LaneEnd::Which::kStart});
+    }
+    if (IsDrivable(edge_sequence_to_return)) {
+      result.push_back(edge_sequence_to_return);
     }
-    result.push_back(edge_sequence_to_return);
   }
 
   return result;
@@ -373,54 +408,33 @@ std::vector<routing::Route> DistanceRouter::DoComputeRoutes(
   MALIPUT_THROW_UNLESS(end_node.has_value());
 
   // Obtain the sequences of routing::graph::Edges that connect the start with end, i.e. the routing algorithm.
-  std::vector<std::vector<routing::graph::Edge>> edge_sequences =
-      routing::graph::FindAllEdgeSequences(graph_, start_node.value(), end_node.value());
+  // When the start and end nodes are the same, there is nothing to traverse between the start and end edges.
+  std::vector<std::vector<routing::graph::Edge>> paths{{}};
+  if (start_node->id != end_node->id) {
+    paths = routing::graph::FindAllEdgeSequences(graph_, start_node.value(), end_node.value());
+  }
 
   // Amends the routing::graph::Edge sequences by introducing the start and end routing::graph::Edges when
   // missing due to the direction of travel.
-  edge_sequences = MaybeAddStartAndEndEdges(graph_, start, end, edge_sequences);
+  const std::vector<EdgeSequence> edge_sequences = MaybeAddStartAndEndEdges(graph_, start, end, paths);
 
   std::vector<routing::Route> routes;
-  for (const std::vector<routing::graph::Edge>& edge_sequence : edge_sequences) {
-    // Handles the case when edge_sequence has a length of 1. This implies the route only has one routing::Phase.
-    if (edge_sequence.size() == 1u) {
-      routes.emplace_back(std::vector<routing::Phase>{MakePhase(0, edge_sequence[0], lane_s_range_tolerance_, {start},
-                                                                {end}, road_network_)},
-                          &road_network_);
-      continue;
-    }
-
-    // Handles the case when edge_sequence has a length greater than 1. This implies the route has more than one
-    // routing::Phase.
+  for (const EdgeSequence& edge_sequence : edge_sequences) {
+    const std::vector<routing::graph::Edge>& edges = edge_sequence.edges;
     std::vector<routing::Phase> phases;
-    for (int i = 0; i < static_cast<int>(edge_sequence.size()); ++i) {
-      const routing::graph::Edge& edge = edge_sequence[i];
-      if (i == 0) {
-        const std::optional<api::LaneEnd::Which> edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i + 1]);
-        MALIPUT_THROW_UNLESS(edge_end.has_value());
-        phases.push_back(MakePhase(i, edge, lane_s_range_tolerance_, {start},
-                                   ComputeAllRoadPositions(edge, edge_end.value(), edge_sequence[i + 1]),
-                                   road_network_));
-      } else if (i + 1 == static_cast<int>(edge_sequence.size())) {
-        const std::optional<api::LaneEnd::Which> edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i - 1]);
-        MALIPUT_THROW_UNLESS(edge_end.has_value());
-        phases.push_back(MakePhase(i, edge, lane_s_range_tolerance_,
-                                   ComputeAllRoadPositions(edge, edge_end.value(), edge_sequence[i - 1]), {end},
-                                   road_network_));
-      } else {
-        const std::optional<api::LaneEnd::Which> start_edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i - 1]);
-        MALIPUT_THROW_UNLESS(start_edge_end.has_value());
-        const std::optional<api::LaneEnd::Which> finish_edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i + 1]);
-        MALIPUT_THROW_UNLESS(finish_edge_end.has_value());
-        phases.push_back(MakePhase(i, edge, lane_s_range_tolerance_,
-                                   ComputeAllRoadPositions(edge, start_edge_end.value(), edge_sequence[i - 1]),
-                                   ComputeAllRoadPositions(edge, finish_edge_end.value(), edge_sequence[i + 1]),
-                                   road_network_));
+    for (size_t i = 0u; i < edges.size(); ++i) {
+      std::vector<api::RoadPosition> start_positions{start};
+      std::vector<api::RoadPosition> end_positions{end};
+      if (i > 0u) {
+        const EdgeSequence::Joint& joint = edge_sequence.joints[i - 1u];
+        start_positions = ComputeAllRoadPositions(edges[i], joint.entry, edges[i - 1u], joint.exit);
+      }
+      if (i + 1u < edges.size()) {
+        const EdgeSequence::Joint& joint = edge_sequence.joints[i];
+        end_positions = ComputeAllRoadPositions(edges[i], joint.exit, edges[i + 1u], joint.entry);
       }
+      phases.push_back(MakePhase(static_cast<int>(i), edges[i], lane_s_range_tolerance_, start_positions, end_positions,
+                                 road_network_));
     }
     routes.emplace_back(phases, &road_network_);
   }
-- 
2.43.0


From 5fe66b9cbceb0ed467ca0f94a7e31d9711ede971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 21/48] fix: ComputeLaneSRoute switched more lanes than needed
 towards the closest straight predecessor

---
 src/maliput/routing/route.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/maliput/routing/route.cc b/src/maliput/routing/route.cc
index c0875e3..03a60dd 100644
--- a/src/maliput/routing/route.cc
+++ b/src/maliput/routing/route.cc
@@ -347,19 +347,16 @@ int Route::FindDirectionTowardsLaneSRangeWithStraightPredecessor(const Route::La
     return kTowardsRight;
   }
 
-  // Evaluate if there are less elements to the right than to the left.
-  if (index.lane_s_range <= (max_current_index - max_current_index)) {
-    for (size_t i = index.lane_s_range - 1; i >= min_current_index; i--) {
-      if (FindStraightPredecessor({index.phase, i} /* right_index */).has_value()) {
-        return kTowardsRight;
-      }
-    }
-    return kTowardsLeft;
-  }
-  for (size_t i = index.lane_s_range + 1; i <= max_current_index; i++) {
-    if (FindStraightPredecessor({index.phase, i} /* left_index */).has_value()) {
+  // Look for the closest one at both sides.
+  for (size_t hops = 1u; hops <= max_current_index; ++hops) {
+    if (index.lane_s_range + hops <= max_current_index &&
+        FindStraightPredecessor({index.phase, index.lane_s_range + hops} /* left_index */).has_value()) {
       return kTowardsLeft;
     }
+    if (index.lane_s_range >= min_current_index + hops &&
+        FindStraightPredecessor({index.phase, index.lane_s_range - hops} /* right_index */).has_value()) {
+      return kTowardsRight;
+    }
   }
   return kTowardsRight;
 }
-- 
2.43.0


From afc28ebd0dc5f6244bfea716d50c0cc0b342ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 22/48] fix: ComputeLaneSRoute threw from outside of the route
 and when the route goes through a lane again

---
 include/maliput/routing/route.h |   7 +++
 src/maliput/routing/route.cc    | 105 ++++++++++++++------------------
 2 files changed, 52 insertions(+), 60 deletions(-)

diff --git a/include/maliput/routing/route.h b/include/maliput/routing/route.h
index f2f1be7..f2e23a2 100644
--- a/include/maliput/routing/route.h
+++ b/include/maliput/routing/route.h
@@ -287,6 +287,13 @@ class Route final {
   // Route.
   std::optional<LaneSRangeIndex> FindLaneSRangeIndex(const api::LaneSRange& lane_s_range) const;
 
+  // Computes the relation between the api::LaneSRange at @p index_b with respect to the one at @p index_a.
+  //
+  // @param index_a The index of an api::LaneSRange. It must be a valid index.
+  // @param index_b The index of an api::LaneSRange. It must be a valid index.
+  // @return The LaneSRangeRelation between them.
+  LaneSRangeRelation ComputeLaneSRangeRelation(const LaneSRangeIndex& index_a, const LaneSRangeIndex& index_b) const;
+
   // Finds the LaneSRangeIndex of the api::LaneSRange that is
   // LaneSRelation::kPrecedingStraight with respect to @p index api::LaneSRange.
   //
diff --git a/src/maliput/routing/route.cc b/src/maliput/routing/route.cc
index 03a60dd..24679f6 100644
--- a/src/maliput/routing/route.cc
+++ b/src/maliput/routing/route.cc
@@ -143,26 +143,30 @@ LaneSRangeRelation Route::ComputeLaneSRangeRelation(const api::LaneSRange& lane_
   if (!index_a.has_value() || !index_b.has_value()) {
     return LaneSRangeRelation::kUnknown;
   }
+  return ComputeLaneSRangeRelation(*index_a, *index_b);
+}
 
+LaneSRangeRelation Route::ComputeLaneSRangeRelation(const LaneSRangeIndex& index_a,
+                                                    const LaneSRangeIndex& index_b) const {
   // lane_s_range_b is unrelated to lane_s_range_a because they are in different non-adjacent phases.
-  if (index_a->phase > index_b->phase + 1 || index_b->phase > index_a->phase + 1) {
+  if (index_a.phase > index_b.phase + 1 || index_b.phase > index_a.phase + 1) {
     return LaneSRangeRelation::kUnrelated;
   }
 
-  const size_t lane_s_range_b_next_index = index_b->lane_s_range + 1;
-  const size_t lane_s_range_b_previous_index = index_b->lane_s_range - 1;
+  const size_t lane_s_range_b_next_index = index_b.lane_s_range + 1;
+  const size_t lane_s_range_b_previous_index = index_b.lane_s_range - 1;
 
   // When both Phase indices are the same, we should look into the indices for the lane_s_ranges.
-  if (index_a->phase == index_b->phase) {
-    if (index_a->lane_s_range == index_b->lane_s_range) {
+  if (index_a.phase == index_b.phase) {
+    if (index_a.lane_s_range == index_b.lane_s_range) {
       return LaneSRangeRelation::kCoincident;
-    } else if (index_a->lane_s_range == lane_s_range_b_next_index) {
+    } else if (index_a.lane_s_range == lane_s_range_b_next_index) {
       return LaneSRangeRelation::kAdjacentRight;
-    } else if (index_a->lane_s_range > lane_s_range_b_next_index) {
+    } else if (index_a.lane_s_range > lane_s_range_b_next_index) {
       return LaneSRangeRelation::kRight;
-    } else if (index_a->lane_s_range == lane_s_range_b_previous_index) {
+    } else if (index_a.lane_s_range == lane_s_range_b_previous_index) {
       return LaneSRangeRelation::kAdjacentLeft;
-    } else {  // (index_a->lane_s_range < lane_s_range_b_previous_index)
+    } else {  // (index_a.lane_s_range < lane_s_range_b_previous_index)
       return LaneSRangeRelation::kLeft;
     }
   }
@@ -184,22 +188,22 @@ LaneSRangeRelation Route::ComputeLaneSRangeRelation(const api::LaneSRange& lane_
   const double tolerance = road_network_->road_geometry()->linear_tolerance();
 
   // Determine whether lane_s_range_b is ahead of lane_s_range_a.
-  if (index_a->phase == index_b->phase - 1) {
+  if (index_a.phase == index_b.phase - 1) {
     const api::RoadPosition lane_s_range_a_road_pos =
-        get_lane_s_range_road_position(index_a->phase, index_a->lane_s_range, kEnd);
+        get_lane_s_range_road_position(index_a.phase, index_a.lane_s_range, kEnd);
     const api::RoadPosition lane_s_range_b_road_pos =
-        get_lane_s_range_road_position(index_b->phase, index_b->lane_s_range, kStart);
+        get_lane_s_range_road_position(index_b.phase, index_b.lane_s_range, kStart);
 
     return kRelativePositionToSucceedingLaneSRange[static_cast<size_t>(
         ComputeRelativePosition(lane_s_range_a_road_pos, lane_s_range_b_road_pos, tolerance))];
   }
 
   // lane_s_range_b is behind of lane_s_range_a.
-  // index_a->phase == index_b->phase - 1
+  // index_a.phase == index_b.phase - 1
   const api::RoadPosition lane_s_range_a_road_pos =
-      get_lane_s_range_road_position(index_a->phase, index_a->lane_s_range, kStart);
+      get_lane_s_range_road_position(index_a.phase, index_a.lane_s_range, kStart);
   const api::RoadPosition lane_s_range_b_road_pos =
-      get_lane_s_range_road_position(index_b->phase, index_b->lane_s_range, kEnd);
+      get_lane_s_range_road_position(index_b.phase, index_b.lane_s_range, kEnd);
 
   return kRelativePositionToPrecedingLaneSRange[static_cast<size_t>(
       ComputeRelativePosition(lane_s_range_a_road_pos, lane_s_range_b_road_pos, tolerance))];
@@ -208,18 +212,26 @@ LaneSRangeRelation Route::ComputeLaneSRangeRelation(const api::LaneSRange& lane_
 api::LaneSRoute Route::ComputeLaneSRoute(const api::RoadPosition& start_position) const {
   MALIPUT_THROW_UNLESS(start_position.lane != nullptr);
 
-  const api::RoadPosition& end_position = end_route_position();
-  // Creates a point like api::LaneSRange to find the appropriate LaneSRangeIndex of the start
-  // and end positions.
-  const api::LaneSRange end_point(end_position.lane->id(), api::SRange(end_position.pos.s(), end_position.pos.s()));
+  // Creates a point like api::LaneSRange to find the appropriate LaneSRangeIndex of the start position.
   const api::LaneSRange start_point(start_position.lane->id(),
                                     api::SRange(start_position.pos.s(), start_position.pos.s()));
+  std::optional<LaneSRangeIndex> start_index = FindLaneSRangeIndex(start_point);
+  if (!start_index.has_value()) {
+    // The start position is not within this Route.
+    const RoutePositionResult result = FindRoutePosition(start_position);
+    start_index = LaneSRangeIndex{static_cast<size_t>(result.phase_index),
+                                  static_cast<size_t>(result.phase_position_result.lane_s_range_index)};
+  }
 
-  const std::optional<LaneSRangeIndex> start_index = FindLaneSRangeIndex(start_point);
-  MALIPUT_THROW_UNLESS(start_index.has_value());
-
-  const std::optional<LaneSRangeIndex> end_index = FindLaneSRangeIndex(end_point);
-  MALIPUT_THROW_UNLESS(end_index.has_value());
+  // The end position is in the last Phase, even when the Route goes through its api::Lane before.
+  const api::RoadPosition& end_position = end_route_position();
+  const std::vector<api::LaneSRange>& end_lane_s_ranges = phases_.back().lane_s_ranges();
+  const auto end_it = std::find_if(
+      end_lane_s_ranges.begin(), end_lane_s_ranges.end(),
+      [&end_position](const api::LaneSRange& range) { return range.lane_id() == end_position.lane->id(); });
+  MALIPUT_THROW_UNLESS(end_it != end_lane_s_ranges.end());
+  const std::optional<LaneSRangeIndex> end_index{
+      LaneSRangeIndex{phases_.size() - 1u, static_cast<size_t>(std::distance(end_lane_s_ranges.begin(), end_it))}};
 
   // Inserts @p index into the beginning of @p lane_s_ranges.
   auto prepend_to_route = [this](const LaneSRangeIndex& index, std::vector<api::LaneSRange>* lane_s_ranges) -> void {
@@ -273,31 +285,10 @@ api::LaneSRoute Route::ComputeLaneSRoute(const api::RoadPosition& start_position
   // TODO(#543): make the set of LaneSRanges of the right length once we can easily map s-coordinates LaneSRange to
   // LaneSRange.
   // Prepend the remaining api::LaneSRanges within the initial Phase towards the starting api::LaneSRange.
-  LaneSRangeRelation lane_s_range_relation{LaneSRangeRelation::kUnknown};
-  while (lane_s_range_relation != LaneSRangeRelation::kCoincident) {
+  prepend_to_route(current_index, &lane_s_ranges);
+  while (current_index.lane_s_range != start_index->lane_s_range) {
+    current_index.lane_s_range += current_index.lane_s_range > start_index->lane_s_range ? kTowardsRight : kTowardsLeft;
     prepend_to_route(current_index, &lane_s_ranges);
-    const api::LaneSRange start_lane_s_range = GetLaneSRange(start_index->phase, start_index->lane_s_range);
-    const api::LaneSRange current_lane_s_range = GetLaneSRange(current_index.phase, current_index.lane_s_range);
-    lane_s_range_relation = ComputeLaneSRangeRelation(start_lane_s_range, current_lane_s_range);
-    switch (lane_s_range_relation) {
-      case LaneSRangeRelation::kLeft:
-      case LaneSRangeRelation::kAdjacentLeft:
-        current_index.lane_s_range += kTowardsRight;
-        break;
-
-      case LaneSRangeRelation::kRight:
-      case LaneSRangeRelation::kAdjacentRight:
-        current_index.lane_s_range += kTowardsLeft;
-        break;
-
-      case LaneSRangeRelation::kCoincident:
-        // Do nothing, leaving the loop now.
-        break;
-
-      default:
-        MALIPUT_THROW_MESSAGE("Code should not arrive here.");
-        break;
-    };
   }
   return api::LaneSRoute(lane_s_ranges);
 }
@@ -320,19 +311,13 @@ std::optional<Route::LaneSRangeIndex> Route::FindStraightPredecessor(const Route
   MALIPUT_THROW_UNLESS(index.phase > 0u);
   const size_t preceding_phase_index = index.phase - 1u;
   const Phase& preceding_phase = phases_.at(preceding_phase_index);
-  const api::LaneSRange& lane_s_range = GetLaneSRange(index.phase, index.lane_s_range);
-  const auto preceding_lane_s_range_it =
-      std::find_if(preceding_phase.lane_s_ranges().begin(), preceding_phase.lane_s_ranges().end(),
-                   [this, lane_s_range](const api::LaneSRange& preceding_lane_s_range) {
-                     return ComputeLaneSRangeRelation(lane_s_range, preceding_lane_s_range) ==
-                            LaneSRangeRelation::kPrecedingStraight;
-                   });
-  if (preceding_lane_s_range_it == preceding_phase.lane_s_ranges().end()) {
-    return std::nullopt;
+  for (size_t i = 0u; i < preceding_phase.lane_s_ranges().size(); ++i) {
+    const LaneSRangeIndex preceding_index{preceding_phase_index, i};
+    if (ComputeLaneSRangeRelation(index, preceding_index) == LaneSRangeRelation::kPrecedingStraight) {
+      return {preceding_index};
+    }
   }
-  const size_t preceding_index =
-      static_cast<size_t>(std::distance(preceding_phase.lane_s_ranges().begin(), preceding_lane_s_range_it));
-  return {LaneSRangeIndex{preceding_phase_index, preceding_index}};
+  return std::nullopt;
 }
 
 int Route::FindDirectionTowardsLaneSRangeWithStraightPredecessor(const Route::LaneSRangeIndex& index) const {
-- 
2.43.0


From 97d01729dbed52797e74adb9f02333e2cf59450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 23/48] fix: ComputeLaneSRangeRelation swapped left and right
 for routes against the direction of their lanes

---
 src/maliput/routing/route.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/maliput/routing/route.cc b/src/maliput/routing/route.cc
index 24679f6..a6b3ab7 100644
--- a/src/maliput/routing/route.cc
+++ b/src/maliput/routing/route.cc
@@ -110,7 +110,9 @@ namespace {
 
 enum class RelativePosition { kLeft = 0, kCenter, kRight };
 
-RelativePosition ComputeRelativePosition(const api::RoadPosition& pos_a, const api::RoadPosition& pos_b,
+// Computes the position of @p pos_b with respect to @p pos_a for those who travel in the direction of +s, or -s when
+// @p with_s is false, at @p pos_a.
+RelativePosition ComputeRelativePosition(const api::RoadPosition& pos_a, const api::RoadPosition& pos_b, bool with_s,
                                          double tolerance) {
   const api::InertialPosition inertial_pos_a = pos_a.lane->ToInertialPosition(pos_a.pos);
   const api::InertialPosition inertial_pos_b = pos_b.lane->ToInertialPosition(pos_b.pos);
@@ -127,7 +129,8 @@ RelativePosition ComputeRelativePosition(const api::RoadPosition& pos_a, const a
 
   const math::Vector3 norm_b_to_a = (inertial_pos_b.xyz() - inertial_pos_a.xyz()).normalized();
 
-  const bool is_to_left = s_hat_a.cross(norm_b_to_a).dot(h_hat_a) > 0.;
+  const double sideways = s_hat_a.cross(norm_b_to_a).dot(h_hat_a);
+  const bool is_to_left = with_s ? sideways > 0. : sideways < 0.;
   return is_to_left ? RelativePosition::kLeft : RelativePosition::kRight;
 }
 
@@ -153,22 +156,22 @@ LaneSRangeRelation Route::ComputeLaneSRangeRelation(const LaneSRangeIndex& index
     return LaneSRangeRelation::kUnrelated;
   }
 
-  const size_t lane_s_range_b_next_index = index_b.lane_s_range + 1;
-  const size_t lane_s_range_b_previous_index = index_b.lane_s_range - 1;
+  // Left and right are those of the direction of travel.
+  const api::SRange& s_range_a = GetLaneSRange(index_a.phase, index_a.lane_s_range).s_range();
+  const bool with_s = s_range_a.s1() >= s_range_a.s0();
 
   // When both Phase indices are the same, we should look into the indices for the lane_s_ranges.
   if (index_a.phase == index_b.phase) {
     if (index_a.lane_s_range == index_b.lane_s_range) {
       return LaneSRangeRelation::kCoincident;
-    } else if (index_a.lane_s_range == lane_s_range_b_next_index) {
-      return LaneSRangeRelation::kAdjacentRight;
-    } else if (index_a.lane_s_range > lane_s_range_b_next_index) {
-      return LaneSRangeRelation::kRight;
-    } else if (index_a.lane_s_range == lane_s_range_b_previous_index) {
-      return LaneSRangeRelation::kAdjacentLeft;
-    } else {  // (index_a.lane_s_range < lane_s_range_b_previous_index)
-      return LaneSRangeRelation::kLeft;
     }
+    const bool is_adjacent =
+        index_a.lane_s_range == index_b.lane_s_range + 1u || index_b.lane_s_range == index_a.lane_s_range + 1u;
+    const bool is_to_left = (index_b.lane_s_range > index_a.lane_s_range) == with_s;
+    if (is_to_left) {
+      return is_adjacent ? LaneSRangeRelation::kAdjacentLeft : LaneSRangeRelation::kLeft;
+    }
+    return is_adjacent ? LaneSRangeRelation::kAdjacentRight : LaneSRangeRelation::kRight;
   }
 
   auto get_lane_s_range_road_position = [&](size_t phase_index, size_t lane_range_index, bool start) {
@@ -195,7 +198,7 @@ LaneSRangeRelation Route::ComputeLaneSRangeRelation(const LaneSRangeIndex& index
         get_lane_s_range_road_position(index_b.phase, index_b.lane_s_range, kStart);
 
     return kRelativePositionToSucceedingLaneSRange[static_cast<size_t>(
-        ComputeRelativePosition(lane_s_range_a_road_pos, lane_s_range_b_road_pos, tolerance))];
+        ComputeRelativePosition(lane_s_range_a_road_pos, lane_s_range_b_road_pos, with_s, tolerance))];
   }
 
   // lane_s_range_b is behind of lane_s_range_a.
@@ -206,7 +209,7 @@ LaneSRangeRelation Route::ComputeLaneSRangeRelation(const LaneSRangeIndex& index
       get_lane_s_range_road_position(index_b.phase, index_b.lane_s_range, kEnd);
 
   return kRelativePositionToPrecedingLaneSRange[static_cast<size_t>(
-      ComputeRelativePosition(lane_s_range_a_road_pos, lane_s_range_b_road_pos, tolerance))];
+      ComputeRelativePosition(lane_s_range_a_road_pos, lane_s_range_b_road_pos, with_s, tolerance))];
 }
 
 api::LaneSRoute Route::ComputeLaneSRoute(const api::RoadPosition& start_position) const {
-- 
2.43.0


From 121ec032f85237740d23b738a50b324325a3c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 24/48] fix: LoadPhaseRingBook carried rule states of a phase
 over to the following phases

---
 src/maliput/base/phase_ring_book_loader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maliput/base/phase_ring_book_loader.cc b/src/maliput/base/phase_ring_book_loader.cc
index 65ff2f3..8b6cd94 100644
--- a/src/maliput/base/phase_ring_book_loader.cc
+++ b/src/maliput/base/phase_ring_book_loader.cc
@@ -222,10 +222,6 @@ PhaseRing BuildPhaseRing(const RoadRulebook* rulebook, const TrafficLightBook* t
 
   const std::unordered_map<Rule::Id, DiscreteValueRule> discrete_rules =
       GetRightOfWayTypeRules(rulebook, phase_ring_node["Rules"]);
-  // First get default states of all rules.
-  // Then, override the defaults with the states specified in the YAML
-  // document.
-  DiscreteValueRuleStates discrete_rule_states = CreateDefaultRuleStates(discrete_rules);
 
   const YAML::Node& phases_node = phase_ring_node["Phases"];
   MALIPUT_THROW_UNLESS(phases_node.IsDefined());
@@ -235,6 +231,10 @@ PhaseRing BuildPhaseRing(const RoadRulebook* rulebook, const TrafficLightBook* t
     MALIPUT_THROW_UNLESS(phase_node.IsMap());
     MALIPUT_THROW_UNLESS(phase_node["ID"].IsDefined());
     const Phase::Id phase_id(phase_node["ID"].as<std::string>());
+    // First get default states of all rules.
+    // Then, override the defaults with the states specified in the YAML
+    // document.
+    DiscreteValueRuleStates discrete_rule_states = CreateDefaultRuleStates(discrete_rules);
     const YAML::Node& rule_states_node = phase_node["RightOfWayRuleStates"];
     // RightOfWayRuleStates might not be added in the yaml.
     if (rule_states_node.IsDefined()) {
-- 
2.43.0


From 8332e43d2409e6a9691aee77d27e2f5cd2be31b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 25/48] fix: road rulebook loaders accepted ranges which start
 beyond the end of their lane

---
 src/maliput/base/road_rulebook_loader.cc                     | 4 ++--
 src/maliput/base/road_rulebook_loader_using_rule_registry.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maliput/base/road_rulebook_loader.cc b/src/maliput/base/road_rulebook_loader.cc
index fde7abf..5b6df27 100644
--- a/src/maliput/base/road_rulebook_loader.cc
+++ b/src/maliput/base/road_rulebook_loader.cc
@@ -173,8 +173,8 @@ namespace {
 SRange ObtainSRange(const Lane* lane, const YAML::Node& lane_node) {
   if (lane_node["SRange"]) {
     const SRange srange = lane_node["SRange"].as<SRange>();
-    MALIPUT_THROW_UNLESS(srange.s0() >= 0);
-    MALIPUT_THROW_UNLESS(srange.s1() <= lane->length());
+    MALIPUT_THROW_UNLESS(srange.s0() >= 0 && srange.s0() <= lane->length());
+    MALIPUT_THROW_UNLESS(srange.s1() >= 0 && srange.s1() <= lane->length());
     return srange;
   } else {
     return SRange(0, lane->length());
diff --git a/src/maliput/base/road_rulebook_loader_using_rule_registry.cc b/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
index cc5171c..5560495 100644
--- a/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
+++ b/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
@@ -115,8 +115,8 @@ SRange GetSRange(const Lane* lane, const YAML::Node& lane_node) {
   MALIPUT_THROW_UNLESS(lane != nullptr);
   if (lane_node[RuleConstants::kSRange]) {
     const SRange s_range = lane_node[RuleConstants::kSRange].as<SRange>();
-    MALIPUT_THROW_UNLESS(s_range.s0() >= 0);
-    MALIPUT_THROW_UNLESS(s_range.s1() <= lane->length());
+    MALIPUT_THROW_UNLESS(s_range.s0() >= 0 && s_range.s0() <= lane->length());
+    MALIPUT_THROW_UNLESS(s_range.s1() >= 0 && s_range.s1() <= lane->length());
     return s_range;
   } else {
     return SRange(0, lane->length());
-- 
2.43.0


From e6e4e2aff49bcde67c68a2d209bb140af89c613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 26/48] fix: LoadPhaseRingBook aborted the process on rules
 without right-of-way states

---
 src/maliput/base/phase_ring_book_loader.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/maliput/base/phase_ring_book_loader.cc b/src/maliput/base/phase_ring_book_loader.cc
index 8b6cd94..e8741ea 100644
--- a/src/maliput/base/phase_ring_book_loader.cc
+++ b/src/maliput/base/phase_ring_book_loader.cc
@@ -43,7 +43,6 @@
 #include "maliput/api/rules/traffic_lights.h"
 #include "maliput/base/manual_phase_ring_book.h"
 #include "maliput/base/rule_registry.h"
-#include "maliput/common/maliput_abort.h"
 #include "maliput/common/maliput_throw.h"
 
 namespace YAML {
@@ -120,7 +119,7 @@ DiscreteValueRule::DiscreteValue GetDefaultState(const std::vector<DiscreteValue
       return *it;
     }
   }
-  MALIPUT_ABORT_MESSAGE("The rule has no states.");
+  MALIPUT_THROW_MESSAGE("The rule has neither Stop, StopThenGo nor Go states.");
 }
 
 // Given a set of rules, determine default states for each rule and return them
-- 
2.43.0


From ba5564842097249c14dffc4558aaa4ae04a38787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 27/48] fix: Quaternion::SetFromTwoVectors returned NaN for
 some opposite vectors

---
 src/maliput/math/quaternion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/math/quaternion.cc b/src/maliput/math/quaternion.cc
index 42eed34..5e2cfbf 100644
--- a/src/maliput/math/quaternion.cc
+++ b/src/maliput/math/quaternion.cc
@@ -717,7 +717,7 @@ void Quaternion::SetFromTwoVectors(const Vector3& a, const Vector3& b) {
           other = Vector3(0, 0, 1);
         }
       } else {
-        if (a.y() < a.z()) {
+        if (a_abs.y() < a_abs.z()) {
           other = Vector3(0, 1, 0);
         } else {
           other = Vector3(0, 0, 1);
-- 
2.43.0


From df6f1973e775c234f062bdac8b24cb0b26120820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 28/48] fix: BoundingBox turned vertices and points against its
 orientation and separated boxes along wrong axes

---
 src/maliput/math/bounding_box.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/maliput/math/bounding_box.cc b/src/maliput/math/bounding_box.cc
index 178b004..7df54ae 100644
--- a/src/maliput/math/bounding_box.cc
+++ b/src/maliput/math/bounding_box.cc
@@ -56,7 +56,7 @@ std::vector<Vector3> BoundingBox::get_vertices() const {
   };
   std::vector<Vector3> vertices;
   for (const auto& vertex : vertices_box_frame) {
-    vertices.push_back(orientation_.ToMatrix().inverse() * vertex + position_);
+    vertices.push_back(orientation_.ToMatrix() * vertex + position_);
   }
   return vertices;
 }
@@ -66,7 +66,7 @@ const Vector3& BoundingBox::box_size() const { return box_size_; }
 const RollPitchYaw& BoundingBox::get_orientation() const { return orientation_; }
 
 bool BoundingBox::DoContains(const Vector3& position) const {
-  const Vector3 box_frame_position = orientation_.ToMatrix() * (position - position_);
+  const Vector3 box_frame_position = orientation_.ToMatrix().transpose() * (position - position_);
   return box_frame_position.x() <= xyz_2_.x() + tolerance_ && box_frame_position.x() >= -xyz_2_.x() - tolerance_ &&
          box_frame_position.y() <= xyz_2_.y() + tolerance_ && box_frame_position.y() >= -xyz_2_.y() - tolerance_ &&
          box_frame_position.z() <= xyz_2_.z() + tolerance_ && box_frame_position.z() >= -xyz_2_.z() - tolerance_;
@@ -96,8 +96,9 @@ bool BoundingBox::IsBoxIntersected(const BoundingBox& other) const {
   // Let's compute the relative transformation from this box to the other box.
   // For the purposes of streamlining the math below, translation and rotation
   // will be named `t` and `r` respectively.
-  const Vector3 t = other.position() - position();
-  const Matrix3 r = get_orientation().ToMatrix().inverse() * other.get_orientation().ToMatrix();
+  const Matrix3 r_inv = get_orientation().ToMatrix().transpose();
+  const Vector3 t = r_inv * (other.position() - position());
+  const Matrix3 r = r_inv * other.get_orientation().ToMatrix();
 
   // Compute some common subexpressions and add epsilon to counteract
   // arithmetic error, e.g. when two edges are parallel. We use the value as
@@ -113,7 +114,7 @@ bool BoundingBox::IsBoxIntersected(const BoundingBox& other) const {
   // First category of cases separating along a's axes.
   for (int i = 0; i < 3; ++i) {
     // if (std::abs(t[i]) > xyz_2_[i] + other.xyz_2_.dot(abs_r.block<1, 3>(i, 0))) {
-    const Vector3 abs_r_i = abs_r.col(i);
+    const Vector3 abs_r_i = abs_r.row(i);
     if (std::abs(t[i]) > xyz_2_[i] + other.xyz_2_.dot(abs_r_i)) {
       return false;
     }
-- 
2.43.0


From feef3671caa5e80e5b1e0ced53ccd99a1f393599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 29/48] fix: arc length functions refused domains or their ends
 because of rounding

---
 src/maliput/drake/arc_length_integrator.cc         | 13 +++++++++----
 src/maliput/drake/inverse_arc_length_integrator.cc | 11 ++++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/maliput/drake/arc_length_integrator.cc b/src/maliput/drake/arc_length_integrator.cc
index f326894..701a598 100644
--- a/src/maliput/drake/arc_length_integrator.cc
+++ b/src/maliput/drake/arc_length_integrator.cc
@@ -29,6 +29,9 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/drake/arc_length_integrator.h"
 
+#include <algorithm>
+#include <cmath>
+
 #include <Eigen/Dense>
 #include <maliput/common/logger.h>
 #include <maliput/common/maliput_throw.h>
@@ -95,10 +98,12 @@ std::function<double(double)> ArcLengthIntegrator::IntegralFunction(double p0, d
   const std::shared_ptr<systems::ScalarDenseOutput<double>> dense_output{
       impl_->antiderivative_function->MakeDenseEvalFunction(p1, context)};
   MALIPUT_THROW_UNLESS(dense_output->start_time() <= p0);
-  MALIPUT_THROW_UNLESS(dense_output->end_time() >= p1);
-  return [dense_output, tolerance, p0, p1](double p) -> double {
-    // Saturates p to lie within the [p0, p1] interval.
-    const double saturated_p = maliput::math::saturate(p, p0, p1);
+  // The dense output may end before p1 because of rounding errors in the time of its steps.
+  const double p_end = std::min(p1, dense_output->end_time());
+  MALIPUT_THROW_UNLESS(p1 - p_end < tolerance);
+  return [dense_output, tolerance, p0, p_end](double p) -> double {
+    // Saturates p to lie within the [p0, p_end] interval.
+    const double saturated_p = maliput::math::saturate(p, p0, p_end);
     MALIPUT_THROW_UNLESS(std::abs(saturated_p - p) < tolerance);
     return dense_output->EvaluateScalar(saturated_p);
   };
diff --git a/src/maliput/drake/inverse_arc_length_integrator.cc b/src/maliput/drake/inverse_arc_length_integrator.cc
index b3b19a9..e7de5eb 100644
--- a/src/maliput/drake/inverse_arc_length_integrator.cc
+++ b/src/maliput/drake/inverse_arc_length_integrator.cc
@@ -29,6 +29,9 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/drake/inverse_arc_length_integrator.h"
 
+#include <algorithm>
+#include <cmath>
+
 #include <Eigen/Dense>
 #include <maliput/common/logger.h>
 #include <maliput/common/maliput_throw.h>
@@ -98,9 +101,11 @@ std::function<double(double)> InverseArcLengthIntegrator::InverseFunction(double
       impl_->scalar_initial_value_problem->DenseSolve(s1, context)};
   MALIPUT_THROW_UNLESS(dense_output->start_time() <= s0);
   MALIPUT_THROW_UNLESS(dense_output->end_time() >= s1 - epsilon);
-  return [dense_output, tolerance, s0, s1](double s) -> double {
-    // Saturates s to lie within the [s0, s1] interval.
-    const double saturated_s = maliput::math::saturate(s, s0, s1);
+  // The dense output may end up to epsilon before s1.
+  const double s_end = std::min(s1, dense_output->end_time());
+  return [dense_output, tolerance, s0, s_end](double s) -> double {
+    // Saturates s to lie within the [s0, s_end] interval.
+    const double saturated_s = maliput::math::saturate(s, s0, s_end);
     MALIPUT_THROW_UNLESS(std::abs(saturated_s - s) < tolerance);
     return dense_output->EvaluateScalar(saturated_s);
   };
-- 
2.43.0


From 904857f5a836e832de889a3d082a7f5bf9eecd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 30/48] fix: destroying or finishing a ThreadPool which was not
 started hung forever

---
 src/maliput/utility/thread_pool.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/maliput/utility/thread_pool.cc b/src/maliput/utility/thread_pool.cc
index 0b4b333..f36a548 100644
--- a/src/maliput/utility/thread_pool.cc
+++ b/src/maliput/utility/thread_pool.cc
@@ -50,7 +50,12 @@ void ThreadPool::Start() {
 }
 
 void ThreadPool::Finish() {
-  is_finished_ = true;
+  {
+    // Threads of a pool which was never started must wake up too.
+    std::unique_lock<std::mutex> l_s(start_mutex_);
+    is_finished_ = true;
+    start_.notify_all();
+  }
   {
     std::unique_lock<std::mutex> l_t(tasks_mutex_);
     available_.notify_all();
@@ -71,7 +76,7 @@ void ThreadPool::DoWork() {
   {
     std::unique_lock<std::mutex> l_s(start_mutex_);
     if (!is_running_) {
-      start_.wait(l_s, [&] { return is_running_.load(); });
+      start_.wait(l_s, [&] { return is_running_.load() || is_finished_.load(); });
     }
   }
   while (true) {
-- 
2.43.0


From 17ba094cd54ed3e8932c15ba91f1d927902485fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 31/48] fix: Path::set_path read before the beginning of empty
 paths

---
 src/maliput/common/filesystem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 8632bf2..4c096de 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -144,7 +144,7 @@ void Path::append(const std::string& path_) {
 }
 
 void Path::normalize() {
-    if (path.back() == '/' && path.length() > 1) {
+    if (path.length() > 1 && path.back() == '/') {
         path = path.substr(0, path.length() - 1);
     }
 }
-- 
2.43.0


From 444eff7d1da213c7984d7b26e0f87bed750053cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 32/48] fix: Filesystem::read_as_string never returned when the
 path was a directory

---
 src/maliput/common/filesystem.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 4c096de..3b0220d 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -172,11 +172,12 @@ bool Filesystem::read_as_string(const Path &path, std::string &read_to) {
     std::ifstream is(path.get_path());
     std::stringstream ss;
     if (is.is_open()) {
-        while (true) {
-            char c = is.get();
-            if (is.eof()) { break; }
+        char c{};
+        while (is.get(c)) {
             ss << c;
         }
+        // Reading may fail before the end, e.g. when the path is a directory.
+        if (!is.eof()) { return false; }
         read_to = ss.str();
         return true;
     }
-- 
2.43.0


From 3278e9f9ef8635a6762a6609459350a315701395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 33/48] fix: Filesystem::create_directory_recursive failed on
 existing directories and one-letter relative paths

---
 src/maliput/common/filesystem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 3b0220d..5c00eec 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -185,7 +185,7 @@ bool Filesystem::read_as_string(const Path &path, std::string &read_to) {
 }
 
 bool Filesystem::create_directory_recursive(const Path &path) {
-    size_t pos = 1;
+    size_t pos = 0;
     std::string temp(path.get_path());
 
     if (temp == "") {
@@ -201,7 +201,7 @@ bool Filesystem::create_directory_recursive(const Path &path) {
             return false;
         }
     }
-    return create_directory(Path(temp));
+    return path.is_directory() || create_directory(Path(temp));
 }
 
 std::string Filesystem::get_env_path(const std::string &env_var) {
-- 
2.43.0


From 513cee86969c0e243ec281adfe62570466d1a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 34/48] fix: Measure coplanarity in meters whatever the length
 of the plane's normal

---
 include/maliput/utility/mesh_simplification.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maliput/utility/mesh_simplification.h b/include/maliput/utility/mesh_simplification.h
index f6c7e57..10768b7 100644
--- a/include/maliput/utility/mesh_simplification.h
+++ b/include/maliput/utility/mesh_simplification.h
@@ -168,7 +168,7 @@ bool DoMeshVerticesLieOnPlane(const GeoMesh& mesh, InputIt first, InputIt last,
   return std::all_of(first, last, [&mesh, &n, &p, tolerance](const IndexFace::Vertex& vertex) {
     const math::Vector3& x_vertex = GetMeshFaceVertexPosition(mesh, vertex);
     const math::Vector3& n_vertex = GetMeshFaceVertexNormal(mesh, vertex);
-    const double ctheta = std::abs(n.dot(n_vertex.normalized()));
+    const double ctheta = std::abs(n.normalized().dot(n_vertex.normalized()));
     return (ctheta != 0. && DistanceToAPlane(n, p, x_vertex) / ctheta < tolerance);
   });
 }
-- 
2.43.0


From f2af01f5c17fe2aff4e11db071e5a38939200558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 35/48] fix: Keep the holes of coplanar regions when
 simplifying meshes

---
 src/maliput/utility/mesh_simplification.cc | 27 +++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/maliput/utility/mesh_simplification.cc b/src/maliput/utility/mesh_simplification.cc
index aa359e7..06870a1 100644
--- a/src/maliput/utility/mesh_simplification.cc
+++ b/src/maliput/utility/mesh_simplification.cc
@@ -239,6 +239,24 @@ GeoFace MergeMeshFaces(const GeoMesh& mesh, const std::set<int>& mergeable_faces
   return merged_face;
 }
 
+namespace {
+
+// Evaluates whether the region that all the faces referred by `faces_indices`
+// yield is bounded by a single contour, i.e. it has no holes.
+bool IsBoundedBySingleContour(const std::set<int>& faces_indices, const FaceAdjacencyMap& adjacent_faces_map) {
+  size_t outer_edges_count{0};
+  for (int face_index : faces_indices) {
+    for (const FaceEdgeIndex& adjacent_face_edge : adjacent_faces_map.at(face_index)) {
+      if (faces_indices.count(adjacent_face_edge.face_index) == 0) {
+        ++outer_edges_count;
+      }
+    }
+  }
+  return ComputeMeshFacesContour(faces_indices, adjacent_faces_map).size() == outer_edges_count;
+}
+
+}  // namespace
+
 GeoMesh SimplifyMeshFaces(const GeoMesh& input_mesh, double tolerance) {
   GeoMesh output_mesh;
   std::set<int> visited_faces_indices;
@@ -252,7 +270,14 @@ GeoMesh SimplifyMeshFaces(const GeoMesh& input_mesh, double tolerance) {
     const std::set<int> mergeable_faces_indices = AggregateAdjacentCoplanarMeshFaces(
         input_mesh, face_index, adjacent_faces_map, tolerance, &visited_faces_indices);
 
-    output_mesh.PushFace(MergeMeshFaces(input_mesh, mergeable_faces_indices, adjacent_faces_map, tolerance));
+    if (IsBoundedBySingleContour(mergeable_faces_indices, adjacent_faces_map)) {
+      output_mesh.PushFace(MergeMeshFaces(input_mesh, mergeable_faces_indices, adjacent_faces_map, tolerance));
+    } else {
+      // Coplanar faces that surround others cannot be merged into a single face.
+      for (int mergeable_face_index : mergeable_faces_indices) {
+        output_mesh.PushFace(MergeMeshFaces(input_mesh, {mergeable_face_index}, adjacent_faces_map, tolerance));
+      }
+    }
   }
   return output_mesh;
 }
-- 
2.43.0


From 6afb898e98aa705b1fa9df99bcf9c7649260debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 36/48] fix: Cover the whole surface of lanes whose width
 changes and leave no degenerate faces in road meshes

---
 src/maliput/utility/generate_obj.cc | 83 ++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 30 deletions(-)

diff --git a/src/maliput/utility/generate_obj.cc b/src/maliput/utility/generate_obj.cc
index 54138a5..c43de98 100644
--- a/src/maliput/utility/generate_obj.cc
+++ b/src/maliput/utility/generate_obj.cc
@@ -170,10 +170,14 @@ double ComputeSampleStep(const maliput::api::Lane* lane, double s0, double grid_
 void GenerateOptimizedRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_unit, bool use_segment_bounds,
                                const std::function<double(double, double)>& elevation) {
   MALIPUT_PROFILE_FUNC();
+  const double linear_tolerance = lane->segment()->junction()->road_geometry()->linear_tolerance();
   const double s_max = lane->length();
   for (double s0 = 0, s1; s0 < s_max; s0 = s1) {
     const double step_increment = ComputeSampleStep(lane, s0, grid_unit);
     s1 = s0 + step_increment;
+    if (s1 > s_max - linear_tolerance) {
+      s1 = s_max;
+    }
 
     const api::RBounds rb0 = use_segment_bounds ? lane->segment_bounds(s0) : lane->lane_bounds(s0);
     const api::RBounds rb1 = use_segment_bounds ? lane->segment_bounds(s1) : lane->lane_bounds(s1);
@@ -191,8 +195,13 @@ void GenerateOptimizedRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid
         {{s0, r00, elevation(s0, r00)}, {s0, r01, elevation(s0, r01)}, {s1, r10, elevation(s1, r10)}}, {0., 0., 1.});
     SrhFace second_triangle(
         {{s0, r01, elevation(s0, r01)}, {s1, r11, elevation(s1, r11)}, {s1, r10, elevation(s1, r10)}}, {0., 0., 1.});
-    mesh->PushFace(first_triangle.ToGeoFace(lane));
-    mesh->PushFace(second_triangle.ToGeoFace(lane));
+    // A triangle is degenerate when its side is as wide as a point.
+    if (r00 != r01) {
+      mesh->PushFace(first_triangle.ToGeoFace(lane));
+    }
+    if (r10 != r11) {
+      mesh->PushFace(second_triangle.ToGeoFace(lane));
+    }
   }
 }
 
@@ -201,61 +210,75 @@ void GeneratePreciseRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_u
   MALIPUT_PROFILE_FUNC();
   const double linear_tolerance = lane->segment()->junction()->road_geometry()->linear_tolerance();
   const double s_max = lane->length();
+  const auto push_face = [mesh, lane](std::initializer_list<api::LanePosition> vertices) {
+    mesh->PushFace(SrhFace(vertices, {0., 0., 1.}).ToGeoFace(lane));
+  };
+  // Bounds the magnitude of r, leaving no sliver next to the bound.
+  const auto bound_r = [linear_tolerance](double r, double r_bound) {
+    return std::abs(r) > std::abs(r_bound) - linear_tolerance ? r_bound : r;
+  };
   for (double s0 = 0, s1; s0 < s_max; s0 = s1) {
     s1 = s0 + grid_unit;
     if (s1 > s_max - linear_tolerance) {
       s1 = s_max;
     }
-
     const api::RBounds rb0 = use_segment_bounds ? lane->segment_bounds(s0) : lane->lane_bounds(s0);
     const api::RBounds rb1 = use_segment_bounds ? lane->segment_bounds(s1) : lane->lane_bounds(s1);
-
     // Left side of lane (r >= 0).
     {
       double r00 = 0.;
       double r10 = 0.;
-      while ((r00 < rb0.max()) && (r10 < rb1.max())) {
-        const double r01 = std::min(r00 + grid_unit, rb0.max());
-        const double r11 = std::min(r10 + grid_unit, rb1.max());
+      for (double r = grid_unit; (r00 < rb0.max()) || (r10 < rb1.max()); r += grid_unit) {
+        const double r01 = bound_r(r, rb0.max());
+        const double r11 = bound_r(r, rb1.max());
         //
         // (s1,r11) o <-- o (s1,r10)       ^ +s
         //          |     ^                |
         //          v     |          +r <--o
         // (s0,r01) o --> * (s0,r00)
         //
-        SrhFace srh_face({{s0, r00, elevation(s0, r00)},
-                          {s1, r10, elevation(s1, r10)},
-                          {s1, r11, elevation(s1, r11)},
-                          {s0, r01, elevation(s0, r01)}},
-                         {0., 0., 1.});
-        mesh->PushFace(srh_face.ToGeoFace(lane));
-
-        r00 += grid_unit;
-        r10 += grid_unit;
+        // The bounds may be reached earlier at one of the ends, which leaves triangles there.
+        const api::LanePosition v00(s0, r00, elevation(s0, r00));
+        const api::LanePosition v10(s1, r10, elevation(s1, r10));
+        const api::LanePosition v11(s1, r11, elevation(s1, r11));
+        const api::LanePosition v01(s0, r01, elevation(s0, r01));
+        if (r00 == r01) {
+          push_face({v00, v10, v11});
+        } else if (r10 == r11) {
+          push_face({v00, v10, v01});
+        } else {
+          push_face({v00, v10, v11, v01});
+        }
+        r00 = r01;
+        r10 = r11;
       }
     }
     // Right side of lane (r <= 0).
     {
       double r00 = 0.;
       double r10 = 0.;
-      while ((r00 > rb0.min()) && (r10 > rb1.min())) {
-        const double r01 = std::max(r00 - grid_unit, rb0.min());
-        const double r11 = std::max(r10 - grid_unit, rb1.min());
+      for (double r = -grid_unit; (r00 > rb0.min()) || (r10 > rb1.min()); r -= grid_unit) {
+        const double r01 = bound_r(r, rb0.min());
+        const double r11 = bound_r(r, rb1.min());
         //
         // (s1,r10) o <-- o (s1,r11)  ^ +s
         //          |     ^           |
         //          v     |           o--> -r
         // (s0,r00) * --> o (s0,r01)
         //
-        SrhFace srh_face({{s0, r00, elevation(s0, r00)},
-                          {s0, r01, elevation(s0, r01)},
-                          {s1, r11, elevation(s1, r11)},
-                          {s1, r10, elevation(s1, r10)}},
-                         {0., 0., 1.});
-        mesh->PushFace(srh_face.ToGeoFace(lane));
-
-        r00 -= grid_unit;
-        r10 -= grid_unit;
+        const api::LanePosition v00(s0, r00, elevation(s0, r00));
+        const api::LanePosition v01(s0, r01, elevation(s0, r01));
+        const api::LanePosition v11(s1, r11, elevation(s1, r11));
+        const api::LanePosition v10(s1, r10, elevation(s1, r10));
+        if (r00 == r01) {
+          push_face({v00, v11, v10});
+        } else if (r10 == r11) {
+          push_face({v00, v01, v10});
+        } else {
+          push_face({v00, v01, v11, v10});
+        }
+        r00 = r01;
+        r10 = r11;
       }
     }
   }
@@ -364,7 +387,7 @@ void DrawLaneArrow(GeoMesh* mesh, const api::Lane* lane, double grid_unit, doubl
     double s0 = s_offset + (si * s_unit);
     double s1 = s_offset + ((si + 1.) * s_unit);
     // Left side of lane.
-    {
+    if (rl_size > 0.) {
       double r00 = 0.;
       double r10 = 0.;
       for (int ri = 0; ri < (num_r_units - 1); ++ri) {
@@ -391,7 +414,7 @@ void DrawLaneArrow(GeoMesh* mesh, const api::Lane* lane, double grid_unit, doubl
       mesh->PushFace(srh_face.ToGeoFace(lane));
     }
     // Right side of lane.
-    {
+    if (rr_size > 0.) {
       double r00 = 0.;
       double r10 = 0.;
       for (int ri = 0; ri < (num_r_units - 1); ++ri) {
-- 
2.43.0


From 79a25aab79eee57189ae42fcbe7fc71716314bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 37/48] fix: Simplify the stripes of each side of a lane apart

---
 src/maliput/utility/generate_obj.cc | 30 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/maliput/utility/generate_obj.cc b/src/maliput/utility/generate_obj.cc
index c43de98..2720282 100644
--- a/src/maliput/utility/generate_obj.cc
+++ b/src/maliput/utility/generate_obj.cc
@@ -306,15 +306,17 @@ void CoverLaneWithQuads(GeoMesh* mesh, const api::Lane* lane, double grid_unit,
   }
 }
 
-// Adds faces to @p mesh which draw stripes along the lane_bounds() of
-// @p lane.
+// Adds faces which draw stripes along the lane_bounds() of @p lane. Each stripe
+// goes to a mesh of its own because they overlap where the lane is narrow.
 //
-// @param mesh  the GeoMesh which will receive the faces
+// @param left_mesh  the GeoMesh which will receive the faces of the left stripe
+// @param right_mesh  the GeoMesh which will receive the faces of the right stripe
 // @param lane  the api::Lane to provide the bounds and surface
 // @param grid_unit  longitudinal size (s dimension) of each face
 // @param h_offset  h value of each vertex (height above road surface)
 // @param stripe_width  width (r dimension) of each stripe
-void StripeLaneBounds(GeoMesh* mesh, const api::Lane* lane, double grid_unit, double h_offset, double stripe_width) {
+void StripeLaneBounds(GeoMesh* left_mesh, GeoMesh* right_mesh, const api::Lane* lane, double grid_unit, double h_offset,
+                      double stripe_width) {
   const double half_stripe = 0.5 * stripe_width;
   const double linear_tolerance = lane->segment()->junction()->road_geometry()->linear_tolerance();
   const double s_max = lane->length();
@@ -334,7 +336,7 @@ void StripeLaneBounds(GeoMesh* mesh, const api::Lane* lane, double grid_unit, do
                         {s1, rb1.max() + half_stripe, h_offset},
                         {s0, rb0.max() + half_stripe, h_offset}},
                        {0., 0., 1.});
-      mesh->PushFace(srh_face.ToGeoFace(lane));
+      left_mesh->PushFace(srh_face.ToGeoFace(lane));
     }
     // Right side of lane.
     {
@@ -343,7 +345,7 @@ void StripeLaneBounds(GeoMesh* mesh, const api::Lane* lane, double grid_unit, do
                         {s1, rb1.min() + half_stripe, h_offset},
                         {s0, rb0.min() + half_stripe, h_offset}},
                        {0., 0., 1.});
-      mesh->PushFace(srh_face.ToGeoFace(lane));
+      right_mesh->PushFace(srh_face.ToGeoFace(lane));
     }
   }
 }
@@ -729,9 +731,11 @@ void RenderSegment(const api::Segment* segment, const ObjFeatures& features, Geo
       lane_mesh->AddFacesFrom(SimplifyMesh(haze_mesh, features));
     }
     if (features.draw_stripes) {
-      GeoMesh stripes_mesh;
-      StripeLaneBounds(&stripes_mesh, lane, grid_unit, features.stripe_elevation, features.stripe_width);
-      marker_mesh->AddFacesFrom(SimplifyMesh(stripes_mesh, features));
+      GeoMesh left_stripe_mesh, right_stripe_mesh;
+      StripeLaneBounds(&left_stripe_mesh, &right_stripe_mesh, lane, grid_unit, features.stripe_elevation,
+                       features.stripe_width);
+      marker_mesh->AddFacesFrom(SimplifyMesh(left_stripe_mesh, features));
+      marker_mesh->AddFacesFrom(SimplifyMesh(right_stripe_mesh, features));
     }
     if (features.draw_arrows) {
       GeoMesh arrows_mesh;
@@ -849,9 +853,11 @@ std::pair<mesh::GeoMesh, Material> BuildMesh(const api::RoadGeometry* rg, const
       const double grid_unit =
           PickGridUnit(lane, features.max_grid_unit, features.min_grid_resolution, linear_tolerance);
       if (features.draw_stripes) {
-        GeoMesh stripes_mesh;
-        StripeLaneBounds(&stripes_mesh, lane, grid_unit, features.stripe_elevation, features.stripe_width);
-        mesh.AddFacesFrom(SimplifyMesh(stripes_mesh, features));
+        GeoMesh left_stripe_mesh, right_stripe_mesh;
+        StripeLaneBounds(&left_stripe_mesh, &right_stripe_mesh, lane, grid_unit, features.stripe_elevation,
+                         features.stripe_width);
+        mesh.AddFacesFrom(SimplifyMesh(left_stripe_mesh, features));
+        mesh.AddFacesFrom(SimplifyMesh(right_stripe_mesh, features));
       }
       if (features.draw_arrows) {
         GeoMesh arrows_mesh;
-- 
2.43.0


From 1654540039e3f946aa807847eddb957c877010ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:52 +0000
Subject: [PATCH 38/48] fix: Polynomial::Substitute sums every monomial once

The product of the terms of a monomial was added to the result after each of
its terms, so that monomials of several variables were added with their
partial products.
---
 src/maliput/drake/common/polynomial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/drake/common/polynomial.cc b/src/maliput/drake/common/polynomial.cc
index 61175a3..c98c9fd 100644
--- a/src/maliput/drake/common/polynomial.cc
+++ b/src/maliput/drake/common/polynomial.cc
@@ -257,8 +257,8 @@ Polynomial<T> Polynomial<T>::Substitute(const VarType& orig, const Polynomial<T>
         } else {
           m *= Polynomial(1.0, {t});
         }
-        p += m;
       }
+      p += m;
     } else {
       // Then this monomial is not changed; add it in directly.
       p += Polynomial(source_monomial.coefficient, source_monomial.terms);
-- 
2.43.0


From 37d98d509cda638b3b047e9bbedad5fb9c23d23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:53 +0000
Subject: [PATCH 39/48] fix: polynomials can be added to and subtracted from
 themselves

The loop inserted in the vector it iterated over.
---
 src/maliput/drake/common/polynomial.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/maliput/drake/common/polynomial.cc b/src/maliput/drake/common/polynomial.cc
index c98c9fd..21c4af5 100644
--- a/src/maliput/drake/common/polynomial.cc
+++ b/src/maliput/drake/common/polynomial.cc
@@ -333,8 +333,10 @@ bool Polynomial<T>::operator==(const Polynomial<T>& other) const {
 
 template <typename T>
 Polynomial<T>& Polynomial<T>::operator+=(const Polynomial<T>& other) {
-  for (const auto& iter : other.monomials_) {
-    monomials_.push_back(iter);
+  // `other` may be this polynomial.
+  const size_t other_size = other.monomials_.size();
+  for (size_t i = 0; i < other_size; i++) {
+    monomials_.push_back(other.monomials_[i]);
   }
   MakeMonomialsUnique();  // also sets is_univariate false if necessary
   return *this;
@@ -342,8 +344,10 @@ Polynomial<T>& Polynomial<T>::operator+=(const Polynomial<T>& other) {
 
 template <typename T>
 Polynomial<T>& Polynomial<T>::operator-=(const Polynomial<T>& other) {
-  for (const auto& iter : other.monomials_) {
-    monomials_.push_back(iter);
+  // `other` may be this polynomial.
+  const size_t other_size = other.monomials_.size();
+  for (size_t i = 0; i < other_size; i++) {
+    monomials_.push_back(other.monomials_[i]);
     monomials_.back().coefficient *= T{-1};
   }
   MakeMonomialsUnique();  // also sets is_univariate false if necessary
-- 
2.43.0


From 6042f8b35e7a45581e714bfc174fdb9ac3c5cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:53 +0000
Subject: [PATCH 40/48] fix: Polynomial merges adjacent terms of the same
 variable

Terms next to each other were not compared, so that x * x was kept as two
terms and evaluated as x.
---
 src/maliput/drake/common/polynomial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/drake/common/polynomial.cc b/src/maliput/drake/common/polynomial.cc
index 21c4af5..21d2cf2 100644
--- a/src/maliput/drake/common/polynomial.cc
+++ b/src/maliput/drake/common/polynomial.cc
@@ -60,7 +60,7 @@ Polynomial<T>::Polynomial(const T coefficient, const vector<Term>& terms) {
     if ((i > 0) && (m.terms[i].var != m.terms[0].var)) {
       is_univariate_ = false;
     }
-    for (int j = 0; j < (i - 1); j++) {  // merge any duplicate vars
+    for (int j = 0; j < i; j++) {  // merge any duplicate vars
       if (m.terms[i].var == m.terms[j].var) {
         m.terms[j].power += m.terms[i].power;
         m.terms.erase(m.terms.begin() + i);
-- 
2.43.0


From 4192eddb0dd8e3c8a87bdd6bf9e6097bed437ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:53 +0000
Subject: [PATCH 41/48] fix: Polynomial::Subs combines what became equal

Terms and monomials which get the same variables by the replacement were kept
apart, and the polynomial was still taken as one of several variables.
---
 src/maliput/drake/common/polynomial.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/maliput/drake/common/polynomial.cc b/src/maliput/drake/common/polynomial.cc
index 21d2cf2..b174e20 100644
--- a/src/maliput/drake/common/polynomial.cc
+++ b/src/maliput/drake/common/polynomial.cc
@@ -236,11 +236,16 @@ Polynomial<T> Polynomial<T>::EvaluatePartial(const std::map<VarType, T>& var_val
 
 template <typename T>
 void Polynomial<T>::Subs(const VarType& orig, const VarType& replacement) {
-  for (typename vector<Monomial>::iterator iter = monomials_.begin(); iter != monomials_.end(); iter++) {
-    for (typename vector<Term>::iterator t = iter->terms.begin(); t != iter->terms.end(); t++) {
-      if (t->var == orig) t->var = replacement;
+  vector<Monomial> new_monomials;
+  for (const Monomial& monomial : monomials_) {
+    vector<Term> new_terms = monomial.terms;
+    for (Term& t : new_terms) {
+      if (t.var == orig) t.var = replacement;
     }
+    // Merges the terms which have the same variable now.
+    new_monomials.push_back(Polynomial(monomial.coefficient, new_terms).monomials_.front());
   }
+  *this = Polynomial(new_monomials.begin(), new_monomials.end());
 }
 
 template <typename T>
-- 
2.43.0


From 9fd105851c010d3f14c8fbccdc87071ed7bbad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:53 +0000
Subject: [PATCH 42/48] fix: polynomials whose other variables cancel are
 univariate

The flag was cleared by monomials which cancel each other and never set again,
so that (x + y) - y could not be evaluated as the polynomial of x it is.
---
 src/maliput/drake/common/polynomial.cc | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/maliput/drake/common/polynomial.cc b/src/maliput/drake/common/polynomial.cc
index b174e20..8ea3d0f 100644
--- a/src/maliput/drake/common/polynomial.cc
+++ b/src/maliput/drake/common/polynomial.cc
@@ -612,23 +612,12 @@ string Polynomial<T>::IdToVariableName(const VarType id) {
 
 template <typename T>
 void Polynomial<T>::MakeMonomialsUnique(void) {
-  VarType unique_var = 0;  // also update the univariate flag
   for (int i = static_cast<int>(monomials_.size()) - 1; i >= 0; --i) {
     if (monomials_[i].coefficient == 0) {
       monomials_.erase(monomials_.begin() + i);
       continue;
     }
     Monomial& mi = monomials_[i];
-    if (!mi.terms.empty()) {
-      if (mi.terms.size() > 1) is_univariate_ = false;
-      if (mi.terms[0].var != unique_var) {
-        if (unique_var > 0) {
-          is_univariate_ = false;
-        } else {
-          unique_var = mi.terms[0].var;
-        }
-      }
-    }
     for (int j = 0; j <= (i - 1); j++) {
       Monomial& mj = monomials_[j];
       if (mi.HasSameExponents(mj)) {
@@ -639,6 +628,8 @@ void Polynomial<T>::MakeMonomialsUnique(void) {
       }
     }
   }
+  // Also update the univariate flag.
+  is_univariate_ = GetVariables().size() <= 1;
 }
 
 // namespace {
-- 
2.43.0


From 694694d706dd08bc383af5dc674d4fd5a1d37f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:53 +0000
Subject: [PATCH 43/48] fix: Polynomial refuses long variable names

The number of a name of seven characters or more wraps around, so that it could
pass the check against the maximum and be the one of another name.
---
 src/maliput/drake/common/polynomial.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/maliput/drake/common/polynomial.cc b/src/maliput/drake/common/polynomial.cc
index 8ea3d0f..3c906cf 100644
--- a/src/maliput/drake/common/polynomial.cc
+++ b/src/maliput/drake/common/polynomial.cc
@@ -571,6 +571,7 @@ bool Polynomial<T>::IsValidVariableName(const string name) {
 template <typename T>
 typename Polynomial<T>::VarType Polynomial<T>::VariableNameToId(const string name, const unsigned int m) {
   MALIPUT_DRAKE_THROW_UNLESS(IsValidVariableName(name));
+  if (name.size() > kNameLength) throw runtime_error("name " + name + " exceeds the max length allowed");
   unsigned int multiplier = 1;
   VarType name_part = 0;
   for (int i = static_cast<int>(name.size()) - 1; i >= 0; i--) {
-- 
2.43.0


From 311a2b26154a17ff14dbfbcca572b5c2f69f2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:53 +0000
Subject: [PATCH 44/48] fix: PiecewisePolynomial::scalarValue clips the time as
 value does

Out of the times of the trajectory, the last polynomial was extrapolated.
---
 .../drake/common/trajectories/piecewise_polynomial.cc        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maliput/drake/common/trajectories/piecewise_polynomial.cc b/src/maliput/drake/common/trajectories/piecewise_polynomial.cc
index a8c8d81..0c88a48 100644
--- a/src/maliput/drake/common/trajectories/piecewise_polynomial.cc
+++ b/src/maliput/drake/common/trajectories/piecewise_polynomial.cc
@@ -98,8 +98,9 @@ PiecewisePolynomial<T> PiecewisePolynomial<T>::integral(const Eigen::Ref<MatrixX
 
 template <typename T>
 T PiecewisePolynomial<T>::scalarValue(const T& t, Eigen::Index row, Eigen::Index col) const {
-  int segment_index = this->get_segment_index(t);
-  return EvaluateSegmentAbsoluteTime(segment_index, t, row, col);
+  const int segment_index = this->get_segment_index(t);
+  const T time = min(max(t, this->start_time()), this->end_time());
+  return EvaluateSegmentAbsoluteTime(segment_index, time, row, col);
 }
 
 template <typename T>
-- 
2.43.0


From 7fa70f3876f5b572547c9126d6260aa46fbd78b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:23 +0000
Subject: [PATCH 45/48] fix: Quaternion::SetFromTwoVectors works for small
 vectors which are almost opposite

The quaternion was not normalized when its squared norm, of the order of the
vectors' fourth power, was below the threshold of normalize(): the rotation
came out as not a unit quaternion or the identity.
---
 src/maliput/math/quaternion.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/maliput/math/quaternion.cc b/src/maliput/math/quaternion.cc
index 5e2cfbf..fe7bf6d 100644
--- a/src/maliput/math/quaternion.cc
+++ b/src/maliput/math/quaternion.cc
@@ -730,8 +730,10 @@ void Quaternion::SetFromTwoVectors(const Vector3& a, const Vector3& b) {
     y_ = axis.y();
     z_ = axis.z();
   } else {
-    const Vector3 axis(a.cross(b));
-    w_ = cos_theta + k;
+    // In terms of unit vectors, otherwise normalize() takes the quaternion of small vectors for a null one.
+    const double scale = k > 0. ? 1. / k : 1.;
+    const Vector3 axis(a.cross(b) * scale);
+    w_ = (cos_theta + k) * scale;
     x_ = axis.x();
     y_ = axis.y();
     z_ = axis.z();
-- 
2.43.0


From 6bfaee32ad6ea3db60d3435b02419349bdb544ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:37 +0000
Subject: [PATCH 46/48] fix: LeafSystem reports feedthrough where prerequisites
 are unspecified

---
 .../drake/systems/framework/leaf_system.cc        | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/maliput/drake/systems/framework/leaf_system.cc b/src/maliput/drake/systems/framework/leaf_system.cc
index 53b2d05..9196053 100644
--- a/src/maliput/drake/systems/framework/leaf_system.cc
+++ b/src/maliput/drake/systems/framework/leaf_system.cc
@@ -266,16 +266,11 @@ std::multimap<int, int> LeafSystem<T>::GetDirectFeedthroughs() const {
   // If the dependency graph resolved all pairs, no need for symbolic analysis.
   if (unknown.empty()) return feedthrough;
 
-  // Otherwise, see if we can get a symbolic inspector to analyze them.
-  // If not, we have to assume they are feedthrough.
-  // auto inspector = MakeSystemSymbolicInspector(*this);
-  // for (const auto& input_output : unknown) {
-  //   if (!inspector || inspector->IsConnectedInputToOutput(
-  //                         input_output.first, input_output.second)) {
-  //     add_to_feedthrough(input_output);
-  //   }
-  //   // No need to clean up the `unknown` set here.
-  // }
+  // Otherwise, there is nothing which can tell whether they are feedthrough, so
+  // we have to assume that they are.
+  for (const auto& input_output : unknown) {
+    add_to_feedthrough(input_output);
+  }
   return feedthrough;
 }
 
-- 
2.43.0


From 56064d66e812e67f7cf11e2549ffaf632ed4317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 47/48] fix: energy and power results are tracked under their
 own tickets

---
 src/maliput/drake/systems/framework/system.cc | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/maliput/drake/systems/framework/system.cc b/src/maliput/drake/systems/framework/system.cc
index f15d211..0cbe008 100644
--- a/src/maliput/drake/systems/framework/system.cc
+++ b/src/maliput/drake/systems/framework/system.cc
@@ -810,25 +810,29 @@ System<T>::System(SystemScalarConverter converter) : system_scalar_converter_(st
   const std::set<DependencyTicket> energy_prereqs_for_9171{accuracy_ticket(), all_state_ticket(),
                                                            all_parameters_ticket()};
   potential_energy_cache_index_ =
-      DeclareCacheEntry("potential energy", ValueProducer(this, &System<T>::CalcPotentialEnergy),
-                        energy_prereqs_for_9171)  // After #9171: configuration + mass.
+      DeclareCacheEntryWithKnownTicket(pe_ticket(), "potential energy",
+                                       ValueProducer(this, &System<T>::CalcPotentialEnergy),
+                                       energy_prereqs_for_9171)  // After #9171: configuration + mass.
           .cache_index();
 
-  kinetic_energy_cache_index_ = DeclareCacheEntry("kinetic energy", ValueProducer(this, &System<T>::CalcKineticEnergy),
-                                                  energy_prereqs_for_9171)  // After #9171: kinematics + mass.
+  kinetic_energy_cache_index_ = DeclareCacheEntryWithKnownTicket(
+                                    ke_ticket(), "kinetic energy", ValueProducer(this, &System<T>::CalcKineticEnergy),
+                                    energy_prereqs_for_9171)  // After #9171: kinematics + mass.
                                     .cache_index();
 
   conservative_power_cache_index_ =
-      DeclareCacheEntry("conservative power", ValueProducer(this, &System<T>::CalcConservativePower),
-                        energy_prereqs_for_9171)  // After #9171: kinematics + mass.
+      DeclareCacheEntryWithKnownTicket(pc_ticket(), "conservative power",
+                                       ValueProducer(this, &System<T>::CalcConservativePower),
+                                       energy_prereqs_for_9171)  // After #9171: kinematics + mass.
           .cache_index();
 
   // Only non-conservative power can have an explicit time or input
   // port dependence. See API documentation above for
   // EvalNonConservativePower() to see why.
   nonconservative_power_cache_index_ =
-      DeclareCacheEntry("non-conservative power", ValueProducer(this, &System<T>::CalcNonConservativePower),
-                        {all_sources_ticket()})  // This is correct.
+      DeclareCacheEntryWithKnownTicket(pnc_ticket(), "non-conservative power",
+                                       ValueProducer(this, &System<T>::CalcNonConservativePower),
+                                       {all_sources_ticket()})  // This is correct.
           .cache_index();
 
   // We must assume that time derivatives can depend on *any* context source.
-- 
2.43.0


From 8d9d80e8c081eceb8bfcf6000b4f767eb35ac738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:57 +0000
Subject: [PATCH 48/48] fix: order of unsigned integers and type-safe indices

The comparisons with the unsigned integer on the left included or left out
equality the wrong way around: 3u < index(3) was true.
---
 src/maliput/drake/common/type_safe_index.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maliput/drake/common/type_safe_index.h b/src/maliput/drake/common/type_safe_index.h
index 6be515f..81ed19a 100644
--- a/src/maliput/drake/common/type_safe_index.h
+++ b/src/maliput/drake/common/type_safe_index.h
@@ -493,25 +493,25 @@ typename std::enable_if_t<std::is_integral_v<U> && std::is_unsigned_v<U>, bool>
 template <typename Tag, typename U>
 typename std::enable_if_t<std::is_integral_v<U> && std::is_unsigned_v<U>, bool> operator<(
     const U& value, const TypeSafeIndex<Tag>& tag) {
-  return tag >= value;
+  return tag > value;
 }
 
 template <typename Tag, typename U>
 typename std::enable_if_t<std::is_integral_v<U> && std::is_unsigned_v<U>, bool> operator<=(
     const U& value, const TypeSafeIndex<Tag>& tag) {
-  return tag > value;
+  return tag >= value;
 }
 
 template <typename Tag, typename U>
 typename std::enable_if_t<std::is_integral_v<U> && std::is_unsigned_v<U>, bool> operator>(
     const U& value, const TypeSafeIndex<Tag>& tag) {
-  return tag <= value;
+  return tag < value;
 }
 
 template <typename Tag, typename U>
 typename std::enable_if_t<std::is_integral_v<U> && std::is_unsigned_v<U>, bool> operator>=(
     const U& value, const TypeSafeIndex<Tag>& tag) {
-  return tag < value;
+  return tag <= value;
 }
 
 }  // namespace maliput::drake
-- 
2.43.0

