From 393e688f47cc4e76266d84f915f086d8d13485c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 01/31] fix: intersect overlapping rectangles that contain no
 corner of each other

---
 src/core/geometry_primitives.h | 50 ++++------------------------------
 1 file changed, 5 insertions(+), 45 deletions(-)

diff --git a/src/core/geometry_primitives.h b/src/core/geometry_primitives.h
index 3249b7a..675633c 100644
--- a/src/core/geometry_primitives.h
+++ b/src/core/geometry_primitives.h
@@ -250,7 +250,11 @@ public:
   }
 
   auto intersect(const LightWeightRectangle &that) const {
-    return intersect_internal(that, false);
+    auto ibot = std::max(bot(), that.bot()), itop = std::min(top(), that.top()),
+         ileft = std::max(left(), that.left()),
+         iright = std::min(right(), that.right());
+    if (itop < ibot || iright < ileft) { return LightWeightRectangle{}; }
+    return LightWeightRectangle{ibot, itop, ileft, iright};
   }
 
   auto overlap(const LightWeightRectangle &that) const {
@@ -265,50 +269,6 @@ public:
     return *this == that ? 1.0 : 0.0;
   }
 
-private:
-
-  LightWeightRectangle intersect_internal(const LightWeightRectangle &that,
-                                          bool reversed = false) const {
-    // NB: a naive implementation; straightforward and correct (I hope so).
-    // IDEA: shrink -this- to intersection rectangle.
-
-    // FIXME: @see unit tests
-    unsigned contained_corners_nm = 0;
-    auto cleft = left(), cright = right(), ctop = top(), cbot = bot();
-
-    #define PROCESS_CORNER(horz_id, vert_id)                    \
-      if (contains(that.horz_id(), that.vert_id())) {           \
-        ++contained_corners_nm;                                 \
-        c##horz_id = that.horz_id();                            \
-        c##vert_id = that.vert_id();                            \
-      }
-
-    PROCESS_CORNER(left, bot);
-    PROCESS_CORNER(right, bot);
-    PROCESS_CORNER(left, top);
-    PROCESS_CORNER(right, top);
-
-    #undef PROCESS_CORNER
-
-    // handle corner cases based on a number of contained corners (pun intended)
-    switch (contained_corners_nm) {
-    case 0:
-      /*
-       * Either doesn't overlap or the overlap must be detected
-       * by this-in-that corners analysis (reversed).
-       */
-      // FIXME: awkward stuff
-      return reversed ? LightWeightRectangle{}
-                      : that.intersect_internal(*this, true);
-    case 1: case 2: case 4:
-      break;
-    case 3: default:
-      assert(0 && "Unexpected inclusions number");
-    }
-
-    return LightWeightRectangle{cbot, ctop, cleft, cright};
-  }
-
 private: // fields
   double _bot, _top, _left, _right;
 };
-- 
2.43.0


From d04a962724675aae8224062f416e96a3ea2b4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 02/31] fix: keep the occupancy of a vacuous TBM cell a
 probability

---
 src/core/maps/tbm_grid_cells.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/maps/tbm_grid_cells.h b/src/core/maps/tbm_grid_cells.h
index 73d22e6..6583ae7 100644
--- a/src/core/maps/tbm_grid_cells.h
+++ b/src/core/maps/tbm_grid_cells.h
@@ -88,6 +88,8 @@ protected:
   // TBM -> Occ is consistent with AOO -> TBM
   Occupancy tbm2occ(const TBM& tbm) const override {
     double qual = tbm.occupied() + tbm.empty();
+    // nothing is known, so neither outcome is preferred
+    if (qual == 0.0) { return Occupancy{0.5, 0.0}; }
     double p_occu = tbm.occupied() / qual;
     return Occupancy { p_occu, qual };
   }
-- 
2.43.0


From 920182264ef33f33a4dd5c8831f8f5f497b54c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:54 +0000
Subject: [PATCH 03/31] fix: save the counters mean and gmapping cells need to
 go on

---
 src/core/maps/naive_grid_cells.h        | 13 +++++++++++++
 src/slams/gmapping/gmapping_grid_cell.h | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/core/maps/naive_grid_cells.h b/src/core/maps/naive_grid_cells.h
index 3f6f395..32345a3 100644
--- a/src/core/maps/naive_grid_cells.h
+++ b/src/core/maps/naive_grid_cells.h
@@ -39,6 +39,19 @@ public:
     GridCell::on_update();
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _n;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _n;
+    return d.pos();
+  }
+
 private:
   double _n;
 };
diff --git a/src/slams/gmapping/gmapping_grid_cell.h b/src/slams/gmapping/gmapping_grid_cell.h
index 7ee57a9..acff67a 100644
--- a/src/slams/gmapping/gmapping_grid_cell.h
+++ b/src/slams/gmapping/gmapping_grid_cell.h
@@ -37,6 +37,19 @@ public:
     return 1.0 - similarity;
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _hits << _tries << obst.x << obst.y;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _hits >> _tries >> obst.x >> obst.y;
+    return d.pos();
+  }
+
 private:
   int _hits, _tries;
   Point2D obst;
-- 
2.43.0


From 072d8ba0b7ec36f5d906f54929a903a818cc7666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 04/31] fix: append the bytes of a vector written to a
 serializer

---
 src/core/serialization.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/serialization.h b/src/core/serialization.h
index 48592b5..232612f 100644
--- a/src/core/serialization.h
+++ b/src/core/serialization.h
@@ -60,7 +60,6 @@ Serializer& operator<<(Serializer& s, Type value) {
     return s;
 }
 
-template<>
 inline Serializer& operator<<(Serializer& s, const std::vector<char>& data) {
     s.append(data);
     return s;
-- 
2.43.0


From 8221f1e3ae18a1796e5d1845e639cf31547e3e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 05/31] fix: enumerate poses around the pose of the current
 search after a reset

---
 src/core/scan_matchers/brute_force_scan_matcher.h | 1 +
 src/core/scan_matchers/pose_enumerators.h         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/scan_matchers/brute_force_scan_matcher.h b/src/core/scan_matchers/brute_force_scan_matcher.h
index a43ae5c..aa506f1 100644
--- a/src/core/scan_matchers/brute_force_scan_matcher.h
+++ b/src/core/scan_matchers/brute_force_scan_matcher.h
@@ -34,6 +34,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _x = _from_x;
     _y = _from_y;
     _t = _from_t;
diff --git a/src/core/scan_matchers/pose_enumerators.h b/src/core/scan_matchers/pose_enumerators.h
index 9e914b7..214d40c 100644
--- a/src/core/scan_matchers/pose_enumerators.h
+++ b/src/core/scan_matchers/pose_enumerators.h
@@ -42,6 +42,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _dir = _from_dir;
     _dst = _from_dst;
   }
-- 
2.43.0


From a469edce15103d40c2ccc4dc55a0429052c02dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 06/31] fix: end the fixed hill climbing at its move limit

---
 src/core/scan_matchers/hcsm_fixed.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/hcsm_fixed.h b/src/core/scan_matchers/hcsm_fixed.h
index df27061..4fde894 100644
--- a/src/core/scan_matchers/hcsm_fixed.h
+++ b/src/core/scan_matchers/hcsm_fixed.h
@@ -29,7 +29,7 @@ public:
     RobotPose best_pose = init_pose;
     double best_pose_prob = scan_probability(scan, best_pose, map);
     for (unsigned step_shrinks = 0; step_shrinks < _max_step_shrinks;
-         _max_step_shrinks++) {
+         ++step_shrinks) {
       RobotPose current_pose = best_pose;
 
       // determine direction
-- 
2.43.0


From cd389abc4ace97f071b8fbc0c789ce3365de5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 07/31] fix: keep coarse levels an upper bound when levels are
 added or areas become unknown

---
 src/core/maps/rescalable_caching_grid_map.h |  4 +++
 src/core/scan_matchers/m3rsm_engine.h       | 27 ++++++++++++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index a723ff8..0dc9976 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -149,6 +149,8 @@ protected:
   // coraser areas update policy
   virtual void pre_area_update(const AreaId &area_id) {}
   virtual void post_area_update(const AreaId &area_id) {}
+  // a new (empty) level is inserted before the coarsest one
+  virtual void post_scale_insertion(unsigned scale_id) {}
 
   const GridMap& map(unsigned scale_id) const {
     return *(*_map_cache)[scale_id];
@@ -190,6 +192,8 @@ protected:
       auto map_params = GridMapParams{pc_w, pc_h, pc_scale};
       auto map = std::make_unique<BackGridMap>(cell_prototype(), map_params);
       _map_cache->insert((_map_cache->rbegin() + 1).base(), std::move(map));
+      const_cast<RescalableCachingGridMap*>(this)
+        ->post_scale_insertion(_map_cache->size() - 2);
     }
   }
 
diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index b4bb537..7a72e59 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -98,14 +98,36 @@ protected:
     update_coarser_maps(area_id, fine_impact);
   }
 
+  void post_scale_insertion(unsigned coarser_scale_id) override {
+    const auto &finer_map = map(coarser_scale_id - 1);
+    auto &coarser_map = map(coarser_scale_id);
+    auto raw_crd = DiscretePoint2D{0, 0};
+    for (raw_crd.x = 0; raw_crd.x < finer_map.width(); ++raw_crd.x) {
+      for (raw_crd.y = 0; raw_crd.y < finer_map.height(); ++raw_crd.y) {
+        auto area_id = finer_map.internal2external(raw_crd);
+        const auto &area = finer_map[area_id];
+        if (area.is_unknown()) { continue; }
+
+        auto coord = coarser_map.world_to_cell(finer_map.cell_to_world(area_id));
+        const auto &coarser_area = coarser_map[coord];
+        if (coarser_area.is_unknown() ||
+            estimate_spe_obstacle_impact(coarser_area) <
+              estimate_spe_obstacle_impact(area)) {
+          coarser_map.reset(coord, area);
+        }
+      }
+    }
+  }
+
   void update_coarser_maps(const AreaId &area_id, const double impact) {
     const auto &modified_area = active_map()[area_id];
+    // NB: an unknown area must not replace a bound of the known ones
+    if (modified_area.is_unknown()) { return; }
     auto modified_space = active_map().world_cell_bounds(area_id);
 
     for (unsigned coarser_scale_id = scale_id() + 1;
          coarser_scale_id <= coarsest_scale_id(); ++coarser_scale_id) {
       auto& coarser_map = map(coarser_scale_id);
-      bool coarser_area_is_updated = false;
       using GRRectangle = GridRasterizedRectangle;
       auto cm_coords = GRRectangle{coarser_map, modified_space, false};
       while (cm_coords.has_next()) {
@@ -119,9 +141,8 @@ protected:
         if (coarser_update_is_not_required) { continue; }
 
         coarser_map.reset(coord, modified_area);
-        coarser_area_is_updated = true;
       }
-      if (!coarser_area_is_updated) { break; }
+      // NB: a level added meanwhile is up to date, even coarser ones may be not
     }
   }
 
-- 
2.43.0


From c0fb613af2888593d9952d015995791c8465307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 08/31] fix: angle histogram fails on almost horizontal
 directions

A direction rounded to 180 degrees violated the range of the histogram, and
one next to it could be assigned to a bin past the last one.
---
 src/core/features/angle_histogram.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/features/angle_histogram.h b/src/core/features/angle_histogram.h
index 51d2152..b453e92 100644
--- a/src/core/features/angle_histogram.h
+++ b/src/core/features/angle_histogram.h
@@ -84,15 +84,16 @@ public:
       angle = M_PI - angle;
     }
 
-    return angle;
+    // NB: an almost horizontal direction may be rounded to 180
+    return angle < M_PI ? angle : 0;
   }
 
 protected:
   std::size_t hist_index(double angle) const {
     assert(0 <= angle && angle < M_PI);
     auto hist_i = std::size_t(std::floor(angle / angle_step()));
-    assert(hist_i < _hist.size());
-    return hist_i;
+    // NB: the quotient may be rounded up to the number of bins
+    return std::min(hist_i, _hist.size() - 1);
   }
 
 private:
-- 
2.43.0


From 7784402364b33653194ae21f1fa57ff51b5c6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 09/31] fix: recognise the unknown scan probability

It is a NaN, which never compares equal.
---
 src/core/scan_matchers/grid_scan_matcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/grid_scan_matcher.h b/src/core/scan_matchers/grid_scan_matcher.h
index aa36420..8e7aac3 100644
--- a/src/core/scan_matchers/grid_scan_matcher.h
+++ b/src/core/scan_matchers/grid_scan_matcher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 #define SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 
+#include <cmath>
 #include <vector>
 #include <memory>
 #include <algorithm>
@@ -98,7 +99,7 @@ public:
   }
 
   static bool is_prob_unknown(double probability) {
-    return probability == unknown_probability();
+    return std::isnan(probability); // NB: a NaN isn't equal to itself
   }
 
   OOPE occupancy_observation_probability_estimator() const { return _oope; }
-- 
2.43.0


From a8e48739ece0d94fc76fd73319be3c29ffbb653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 10/31] fix: GMapping obstacle likelihood depends on earlier
 evaluations

It was cached by the cell of the obstacle only, although it depends on the map
(shared by particles, changed by scans) and on the position inside the cell.
---
 .../gmapping/gmapping_occupancy_observation_pe.h    | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/slams/gmapping/gmapping_occupancy_observation_pe.h b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
index 08f3fe4..267f03f 100644
--- a/src/slams/gmapping/gmapping_occupancy_observation_pe.h
+++ b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
@@ -13,16 +13,12 @@ class GmappingOccupancyObservationPE
 public:
   GmappingOccupancyObservationPE(double fullness_th, unsigned window_size)
     : OccupancyObservationProbabilityEstimator{std::make_shared<MockOIE>()}
-    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)}, _cached_prob{-1} {}
+    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)} {}
   double probability(const AreaOccupancyObservation &aoo,
                      const LightWeightRectangle &,
                      const GridMap &map) const override {
     assert(aoo.is_occupied);
     auto sp_coord = map.world_to_cell(aoo.obstacle);
-    if (sp_coord == _cached_coord && _cached_prob != -1) {
-      return _cached_prob;
-    }
-
     double best_prob = 0;
     for (int d_x = -Window_Sz; d_x <= Window_Sz; ++d_x) {
       for (int d_y = -Window_Sz; d_y <= Window_Sz; ++d_y) {
@@ -33,15 +29,14 @@ public:
       }
     }
 
-    _cached_coord = sp_coord;
-    return _cached_prob = best_prob;
+    // NB: the probability depends on the map and the exact obstacle position,
+    //     so it can't be cached per cell.
+    return best_prob;
   }
 
 private:
   const double Fullness_Th;
   const int Window_Sz;
-  mutable DiscretePoint2D _cached_coord;
-  mutable double _cached_prob;
 };
 
 
-- 
2.43.0


From f06ddd57f75fa7aae0d1f955bdd16042aca6dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 11/31] fix: a rectangle without width or height covers all
 cells along it

Only the cell of its left bottom corner was rasterised, so likelihoods bounded
over such a rectangle were no bounds.
---
 src/core/maps/grid_rasterization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/maps/grid_rasterization.h b/src/core/maps/grid_rasterization.h
index e480d3c..7adde5e 100644
--- a/src/core/maps/grid_rasterization.h
+++ b/src/core/maps/grid_rasterization.h
@@ -36,7 +36,8 @@ public:
     } else if (area_is_empty) {
       // TODO: do not pass scale as an argument. This causes slight slow down.
       //       Find out the reason.
-      _rt = _lb = grid.world_to_cell(r.left(), r.bot());
+      _lb = grid.world_to_cell(r.left(), r.bot());
+      _rt = grid.world_to_cell(r.right(), r.top()); // NB: may be a line
     } else if (area_is_infin) {
       _lb = grid.internal2external({0, 0});
       _rt = grid.internal2external({grid.width() - 1, grid.height() - 1});
-- 
2.43.0


From 82c21b3b41e0e094ff37bac2b1cc583f4352247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 12/31] fix: a scan of unknown probability spoils the weight of
 a particle

---
 src/slams/gmapping/gmapping_world.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 89080f3..afab245 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -96,7 +96,9 @@ public:
       _scan_is_first = false;
     }
 
-    Particle::set_weight(scan_prob * Particle::weight());
+    if (!ScanProbabilityEstimator::is_prob_unknown(scan_prob)) {
+      Particle::set_weight(scan_prob * Particle::weight());
+    }
     reset_scan_matching_delta();
   }
 
-- 
2.43.0


From ee7322a3eb875405ed830002e55c6d5bb17368ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 13/31] fix: particle weights stop being a distribution once
 all of them are zero

---
 src/core/particle_filter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/particle_filter.h b/src/core/particle_filter.h
index e85c73a..d30154a 100644
--- a/src/core/particle_filter.h
+++ b/src/core/particle_filter.h
@@ -108,6 +108,10 @@ public: // methods
   void normalize_weights() {
     double total_weight = 0;
     for (auto &p : _particles) { total_weight += p->weight(); }
+    if (!(0 < total_weight)) { // all particles are equally (un)likely
+      for (auto &p : _particles) { p->set_weight(1.0 / _particles.size()); }
+      return;
+    }
     for (auto &p : _particles) { p->set_weight(p->weight() / total_weight); }
   }
 
-- 
2.43.0


From 5e120accd53c5e1449e6b332e8fecdf5e9ccc8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 14/31] fix: GMapping particles share a single map

---
 src/slams/gmapping/gmapping_world.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index afab245..1978624 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -111,7 +111,12 @@ public:
       GRV1D{0, 0}, GRV1D{0, 0}, GRV1D{0, 0}};
   }
   bool is_master() { return _is_master; }
-  void sample() override { _is_master = false; }
+  void sample() override {
+    _is_master = false;
+    // NB: a particle has its own map that isn't shared with the origin
+    auto map = std::dynamic_pointer_cast<MapType>(_map);
+    if (map) { _map = std::make_shared<MapType>(*map); }
+  }
 
 private:
 
-- 
2.43.0


From 08d764e89263e42392160eceed4d95b0b446a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 15/31] fix: a scan shorter than its margins is read out of
 bounds

---
 src/core/maps/grid_map_scan_adders.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/maps/grid_map_scan_adders.h b/src/core/maps/grid_map_scan_adders.h
index a912655..93547a5 100644
--- a/src/core/maps/grid_map_scan_adders.h
+++ b/src/core/maps/grid_map_scan_adders.h
@@ -55,7 +55,8 @@ public:
                        const LaserScan2D &scan,
                        double scan_quality,
                        double scan_margin = 0.0) const {
-    if (scan.points().empty()) { return map; }
+    // NB: the margin may cover the entire scan
+    if (scan.points().size() <= 2 * scan_margin) { return map; }
 
     const auto rp = pose.point();
     scan.trig_provider->set_base_angle(pose.theta);
-- 
2.43.0


From 72a3c476f243a706f93c1774d0e709fb7b70d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:44 +0000
Subject: [PATCH 16/31] fix: the occupied share of a cell depends on its
 position and earlier estimates

The side of the cut was computed with a formula that is no orientation test,
and the shift of beams along edges was that of the first cell ever estimated.
---
 src/core/maps/area_occupancy_estimator.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 0667d30..cc1e0e4 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -68,7 +68,7 @@ private: // methods
   Segment2D ensure_segment_not_on_edge(const Segment2D& s,
                                        const Rectangle &cell) const {
     // NB: Invariant: beg/end movement should not effect intersections
-    static const double Shift_Amount = _low_qual * cell.side();
+    const double Shift_Amount = _low_qual * cell.side();
     if (!cell.has_on_edge_line(s)) { return s; }
 
     Point2D shift;
@@ -169,6 +169,7 @@ private: // methods
 
     assert(inters.size() == 2);
     double corner_x = 0, corner_y = 0, area = 0;
+    Point2D chunk_pnt{0, 0}; // a point at the chunk's side of the cut
     double chunk_is_triangle = inters[0].is_horiz() ^ inters[1].is_horiz();
     if (chunk_is_triangle) {
       // determine "base" corner (corner of cell that
@@ -182,6 +183,7 @@ private: // methods
         default: assert(false && "Unexpected location type");
         }
       }
+      chunk_pnt = {corner_x, corner_y};
       // calculate triange area
       area = 0.5;
       for (auto &inter : inters) {
@@ -195,6 +197,10 @@ private: // methods
       // chunk is a trapezoid
       // corner choise doesn't matter, so pick bottom-left one.
       corner_x = bnds.left(), corner_y = bnds.bot();
+      // NB: the cut may go through the corner or along the edge
+      chunk_pnt = inters[0].is_horiz() ?
+        Point2D{corner_x - bnds.side(), bnds.center().y} :
+        Point2D{bnds.center().x, corner_y - bnds.side()};
       double base_sum = 0;
       for (auto &inter : inters) {
         if (inter.is_horiz()) {
@@ -209,7 +215,7 @@ private: // methods
     assert(0 <= area && area <= bnds.area() && "BUG: AOE area estimation");
     if (is_occ &&
         are_on_the_same_side(inters[0], inters[1],
-                             beam.beg(), {corner_x, corner_y})) {
+                             beam.beg(), chunk_pnt)) {
       area = bnds.area() - area;
     }
     return area;
@@ -218,8 +224,8 @@ private: // methods
   bool are_on_the_same_side(const Point2D &line_p1, const Point2D &line_p2,
                             const Point2D &p1, const Point2D &p2) {
     double dx = line_p2.x - line_p1.x, dy = line_p2.y - line_p1.y;
-    return 0 < (dy*p1.y - dx*p1.x + dy*p1.x - dx*p1.y) *
-               (dy*p2.y - dx*p2.x + dy*p2.x - dx*p2.y);
+    return 0 < (dy*(p1.x - line_p1.x) - dx*(p1.y - line_p1.y)) *
+               (dy*(p2.x - line_p1.x) - dx*(p2.y - line_p1.y));
   }
 
   Occupancy estimate_occupancy(double chunk_area, double total_area,
-- 
2.43.0


From a272de558631ccc9e4d26a3f79d4a67071a1b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 17/31] fix: the configured width and height of a map are
 swapped

---
 src/utils/init_occupancy_mapping.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 2a8b1a8..59e412c 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -31,8 +31,8 @@ auto init_pose_quality_estimators(const PropertiesProvider &props) {
 
 auto init_grid_map_params(const PropertiesProvider &props) {
   static const std::string Map_NS = "slam/map/";
-  auto w = props.get_dbl(Map_NS + "height_in_meters", 10);
-  auto h = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto w = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto h = props.get_dbl(Map_NS + "height_in_meters", 10);
   auto scale = props.get_dbl(Map_NS + "meters_per_cell", 0.1);
   return GridMapParams{static_cast<int>(std::ceil(w / scale)),
                        static_cast<int>(std::ceil(h / scale)),
-- 
2.43.0


From 7317140b3ace7a44841c548387869d920495936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 18/31] fix: the type of the observation quality estimator is
 read from a mangled key

---
 src/utils/init_occupancy_mapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 59e412c..976c068 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -65,7 +65,7 @@ std::shared_ptr<ObservationMappingQualityEstimator> init_omqe(
     const PropertiesProvider &props) {
 
   static const auto MAPPING_NS = std::string{"slam/mapping/"};
-  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/type";
+  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/";
   // TODO: replace with <undefined> after config refactoring
   auto type = props.get_str(OMQE_NS + "type", "idle");
   std::cout << "Used OMQE: " << type << std::endl;
-- 
2.43.0


From 5e0c497987330cb4029bcbf37f74e1d8675aac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 19/31] fix: the configured window of the GMapping likelihood
 is ignored

---
 src/slams/gmapping/init_gmapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slams/gmapping/init_gmapping.h b/src/slams/gmapping/init_gmapping.h
index 7b17882..718114a 100644
--- a/src/slams/gmapping/init_gmapping.h
+++ b/src/slams/gmapping/init_gmapping.h
@@ -39,7 +39,7 @@ auto init_gmapping_prob_estimator(const PropertiesProvider &props) {
 
   using CustomOOPE = GmappingOccupancyObservationPE;
   auto fullness_th = props.get_dbl(OOPE_Pfx + "custom/fullness_threshold", 0.1);
-  auto window_size = props.get_uint(OOPE_Pfx + "cutrom/window_size", 1);
+  auto window_size = props.get_uint(OOPE_Pfx + "custom/window_size", 1);
   auto oope = std::make_shared<CustomOOPE>(fullness_th, window_size);
   return init_spe(props, oope);
 }
-- 
2.43.0


From f90edce0616887f6be44e4df2d5d2e6087fe6664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 20/31] fix: the search limits of the shipped BF_M3RSM
 configuration are ignored

---
 src/utils/init_scan_matching.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/init_scan_matching.h b/src/utils/init_scan_matching.h
index af5abca..5f4dac3 100644
--- a/src/utils/init_scan_matching.h
+++ b/src/utils/init_scan_matching.h
@@ -174,9 +174,9 @@ decltype(auto) init_bf_m3rsm(const PropertiesProvider &props,
   auto ang_acc = props.get_dbl(SM_NS + "accuracy/rotation", deg2rad(0.1));
   auto trl_acc = props.get_dbl(SM_NS + "accuracy/translation", 0.05);
 
-  auto max_x_err = props.get_dbl(SM_NS + "limits/x_translation", 1);
-  auto max_y_err = props.get_dbl(SM_NS + "limits/y_translation", 1);
-  auto max_rot_err = props.get_dbl(SM_NS + "limits/rotation", deg2rad(5));
+  auto max_x_err = props.get_dbl(SM_NS + "limit/x_translation", 1);
+  auto max_y_err = props.get_dbl(SM_NS + "limit/y_translation", 1);
+  auto max_rot_err = props.get_dbl(SM_NS + "limit/rotation", deg2rad(5));
 
   return std::make_shared<BruteForceMultiResolutionScanMatcher>(
     spe, max_x_err, max_y_err, max_rot_err, ang_acc, trl_acc);
-- 
2.43.0


From d5a27c5bc140c5d97ca7228b3026cb52d4eb58b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 21/31] fix: rasterization of a segment loses its way after a
 cell corner

A step through a cell corner (or along a grid line) set the tracked error
to zero instead of advancing it, so cells visited later diverged from the
segment: a beam (300, 100) cells long freed cells 33 rows away from it.
---
 src/core/maps/regular_squares_grid.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/maps/regular_squares_grid.h b/src/core/maps/regular_squares_grid.h
index 9485a9d..5a3fdf7 100644
--- a/src/core/maps/regular_squares_grid.h
+++ b/src/core/maps/regular_squares_grid.h
@@ -85,10 +85,9 @@ public:
       double abs_err_diff = std::abs(e_y) - std::abs(e_x);
       if (are_equal(abs_err_diff, 0)) {
         // through cell diagonal or coord grid's line aligned
-        if      (pnt.x == end.x) { pnt.y += inc_y; }
-        else if (pnt.y == end.y) { pnt.x += inc_x; }
-        else { pnt.x += inc_x; pnt.y += inc_y; }
-        e = 0;
+        if      (pnt.x == end.x) { pnt.y += inc_y; e = e_y; }
+        else if (pnt.y == end.y) { pnt.x += inc_x; e = e_x; }
+        else { pnt.x += inc_x; pnt.y += inc_y; e = e_x + e_y_inc; }
       } else if (0 < abs_err_diff) {
         pnt.x += inc_x;
         e = e_x;
-- 
2.43.0


From 51c12692cccc0f0f58fbbc476c38ade5e064e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:16 +0000
Subject: [PATCH 22/31] fix: multi-resolution matching of a scan without usable
 points aborts

The scan is of unknown probability (NaN) at any pose, so the best match
was taken for an invalid one and an assertion failed. Report the unknown
probability and no correction as other matchers do.
---
 src/core/scan_matchers/bf_multi_res_scan_matcher.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/scan_matchers/bf_multi_res_scan_matcher.h b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
index 0e8ae4c..347b36b 100644
--- a/src/core/scan_matchers/bf_multi_res_scan_matcher.h
+++ b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
@@ -43,8 +43,9 @@ public:
                                       raw_scan.scan, rescalable_map, true);
     while (1) {
       auto best_match = _engine.next_best_match(_transl_step);
-      assert(best_match.is_valid());
-      if (best_match.is_finest()) {
+      // NB: a scan of unknown probability (e.g. without usable points)
+      //     gives nothing to choose by, so the first match (no drift) is it.
+      if (best_match.is_finest() || !best_match.is_valid()) {
         result_pose_delta = {best_match.translation_drift.center(),
                              best_match.rotation};
         do_for_each_observer([&result_pose_delta, &best_match](ObsPtr obs) {
-- 
2.43.0


From 546a3fc028e35fff851e5e779f5e5e03117198ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:05 +0000
Subject: [PATCH 23/31] fix: the ambiguous drift is sought along a direction of
 the sensor frame

---
 .../scan_matchers/connect_the_dots_ambiguous_drift_detector.h  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h b/src/core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h
index b749cd3..1d35b60 100644
--- a/src/core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h
+++ b/src/core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h
@@ -57,7 +57,8 @@ public:
     auto hist_step = angle_histogram.angle_step();
     // FIXME: a hack to exclude base_pose
 
-    auto ang = drift_dir_i * hist_step + hist_step / 2;
+    // NB: the histogram describes the sensor frame, poses are moved in the map
+    auto ang = best_pose.theta + drift_dir_i * hist_step + hist_step / 2;
     auto poses = PolarCoordBruteForcePoseEnumerator{
       //drift_dir_i * hist_step, (drift_dir_i + 1) * hist_step, hist_step / 2,
       ang, ang, hist_step,
-- 
2.43.0


From baf1b2e0d405f63c1fb1fb1f15a508d70358fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:18 +0000
Subject: [PATCH 24/31] fix: resampled GMapping particles repeat random choices
 of their origin

---
 src/slams/gmapping/gmapping_world.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 1978624..555d983 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -113,6 +113,8 @@ public:
   bool is_master() { return _is_master; }
   void sample() override {
     _is_master = false;
+    // NB: random choices of the origin aren't repeated
+    _rnd_engine.seed(std::random_device{}());
     // NB: a particle has its own map that isn't shared with the origin
     auto map = std::dynamic_pointer_cast<MapType>(_map);
     if (map) { _map = std::make_shared<MapType>(*map); }
-- 
2.43.0


From b79752ad88b37ba11abd06c838adea6de1bc8e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:18 +0000
Subject: [PATCH 25/31] fix: copies of the master GMapping particle are never
 subject to noise

---
 src/slams/gmapping/gmapping_world.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 555d983..1888a32 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -49,6 +49,7 @@ public:
     : SingleStateHypothesisLaserScanGridWorld{shw_params}
     , _raw_odom_pose{0, 0, 0}
     , _rnd_engine(std::random_device{}())
+    , _gparams{gparams}
     , _pose_guess_rv{gparams.pose_guess_rv}
     , _next_sm_delta_rv{gparams.next_sm_delta_rv} {
     reset_scan_matching_delta();
@@ -113,6 +114,9 @@ public:
   bool is_master() { return _is_master; }
   void sample() override {
     _is_master = false;
+    // NB: a copy of the master is subject to noise
+    _pose_guess_rv = _gparams.pose_guess_rv;
+    _next_sm_delta_rv = _gparams.next_sm_delta_rv;
     // NB: random choices of the origin aren't repeated
     _rnd_engine.seed(std::random_device{}());
     // NB: a particle has its own map that isn't shared with the origin
@@ -132,6 +136,7 @@ private:
   bool _is_master = false;
   bool _scan_is_first = true;
   RandomEngine _rnd_engine;
+  GMappingParams _gparams;
   RobotPoseDeltaRV<RandomEngine> _pose_guess_rv, _next_sm_delta_rv;
   RobotPoseDelta _delta_since_last_sm, _next_sm_delta;
 };
-- 
2.43.0


From 4de13a3164399bc718b1318a49125f78ccd34366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:25 +0000
Subject: [PATCH 26/31] fix: failed measurements (NaN) of a laser scan message
 become obstacles

---
 src/ros/laser_scan_observer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ros/laser_scan_observer.h b/src/ros/laser_scan_observer.h
index 08c4742..6a1c0b1 100644
--- a/src/ros/laser_scan_observer.h
+++ b/src/ros/laser_scan_observer.h
@@ -6,6 +6,7 @@
 #include <sensor_msgs/LaserScan.h>
 #include <boost/shared_ptr.hpp>
 #include <cassert>
+#include <cmath>
 #include <iostream>
 
 #include "../core/states/state_data.h"
@@ -51,8 +52,8 @@ public: //methods
       sp_angle += msg->angle_increment;
 
       // filter points by range/angle
-      if (sp_range < msg->range_min) {
-        continue;
+      if (std::isnan(sp_range) || sp_range < msg->range_min) {
+        continue; // NB: NaN stands for a failed measurement
       } else if (msg->range_max <= sp_range) {
         sp_is_occupied = false;
         sp_range = msg->range_max;
-- 
2.43.0


From 82a123c7b4943bab66b7a7975a90e76c5e51b3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:25 +0000
Subject: [PATCH 27/31] fix: fractions of a second are dumped without leading
 zeros

---
 src/ros/robot_pose_observers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ros/robot_pose_observers.h b/src/ros/robot_pose_observers.h
index cac6124..663ab74 100644
--- a/src/ros/robot_pose_observers.h
+++ b/src/ros/robot_pose_observers.h
@@ -2,6 +2,7 @@
 #define SLAM_CTOR_ROS_ROBOT_POSE_OBSERVERS_H
 
 #include <fstream>
+#include <iomanip>
 #include <ros/ros.h>
 #include <tf/transform_broadcaster.h>
 
@@ -75,7 +76,8 @@ public:
 
   void log_robot_pose(const ros::Time &time,  const RobotPose &pose) {
     auto q = tf::createQuaternionFromRPY(0, 0, pose.theta);
-    _fstream << time.sec << '.' << time.nsec
+    _fstream << time.sec << '.'
+             << std::setw(9) << std::setfill('0') << time.nsec
              << ' ' << pose.x << ' ' << pose.y << ' ' << '0'
              << ' ' << q.x() << ' ' << q.y() << ' ' << q.z() << ' ' << q.w()
              << '\n';
-- 
2.43.0


From 305a2478e5185f8fad1243e2b5fb9fdef5a93327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:21 +0000
Subject: [PATCH 28/31] fix: playing a bag fails if a scan precedes the first
 transform

---
 src/ros/bag_topic_with_transform.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index c723612..e88631f 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -96,6 +96,10 @@ private:
     tf::StampedTransform transform;
     try {
       _tf_cache.lookupTransform(_target_frame, frame_id, time, transform);
+    } catch (const tf::LookupException &) {
+      return false; // ok, the frames have not been mentioned yet
+    } catch (const tf::ConnectivityException &) {
+      return false; // ok, the frames have not been connected yet
     } catch (const tf::ExtrapolationException &e) {
       auto reason = std::string{e.what()};
       if (reason.find("extrapolation into the future") != std::string::npos) {
-- 
2.43.0


From 099081d4f4a27459b4b23e511dcd5564a6631849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:14 +0000
Subject: [PATCH 29/31] fix: dropping a scan at the end of a bag loses the
 scans after it

---
 src/ros/bag_topic_with_transform.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index e88631f..5e55934 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -110,7 +110,8 @@ private:
       std::cout << "[WARN][BagTopic] ";
       if (reason.find("past") != std::string::npos) {
          _msg_cache.pop();
-         std::cout << "Scan dropped. ";
+         std::cout << "Scan dropped. " << reason << std::endl;
+         return has_synced_msg();
       }
       std::cout << reason << std::endl;;
       return false;
-- 
2.43.0


From cf7149a4001c381562e993130cde0534c36bb711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:02 +0000
Subject: [PATCH 30/31] fix: the documented ros/skip_exceeding_lsr_vals
 parameter is ignored

---
 src/ros/init_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ros/init_utils.h b/src/ros/init_utils.h
index 846244a..9923907 100644
--- a/src/ros/init_utils.h
+++ b/src/ros/init_utils.h
@@ -48,7 +48,7 @@ bool is_async_correction() {
 
 bool get_skip_exceeding_lsr(const PropertiesProvider &props) {
   return props.get_bool("in/lscan2D/skip_exceeding_vals",
-                        false);
+                        props.get_bool("ros/skip_exceeding_lsr_vals", false));
 }
 
 // performance
-- 
2.43.0


From 17c1081b383b998a1db8ac8d0d576c3b8c8d58e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:37 +0000
Subject: [PATCH 31/31] fix: the scan matching program filters the recorded
 scan twice

---
 src/utils/sm_runner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/sm_runner.cpp b/src/utils/sm_runner.cpp
index 7f68dd6..a9e8fff 100644
--- a/src/utils/sm_runner.cpp
+++ b/src/utils/sm_runner.cpp
@@ -78,11 +78,11 @@ int main(int argc, char **argv) {
   assert(map->validate());
 
   // 2)
+  // NB: the scan matcher filters the scan
   auto sm = init_scan_matcher(props);
-  auto scan = sm->filter_scan(raw_scan, pose, *map);
   auto pose_delta = RobotPoseDelta{0, 0, 0};
 
-  auto tr_scan = TransformedLaserScan{{}, scan, 1 /* qualtiy */};
+  auto tr_scan = TransformedLaserScan{{}, raw_scan, 1 /* qualtiy */};
   auto pose_prob = sm->process_scan(tr_scan, pose, *map, pose_delta);
 
   std::cout << "Pose delta: " << pose_delta
-- 
2.43.0

