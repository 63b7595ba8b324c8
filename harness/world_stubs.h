// Stand-ins around a world: a matcher with given answers, an adder that records its calls, observers.
#pragma once
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
#include "core/maps/plain_grid_map.h"
struct MatchCall { RobotPose pose; const GridMap *map; size_t points; };

static std::vector<MatchCall> matches;
struct FakeMatcher : GridScanMatcher {
  std::vector<RobotPoseDelta> answer; std::vector<double> score;
  unsigned resets = 0;
  FakeMatcher() : GridScanMatcher{nullptr} {}
  void reset_state() override { ++resets; }
  double process_scan(const TransformedLaserScan &s, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override {
    size_t i = matches.size(); matches.push_back({p, &m, s.scan.points().size()});
    if (i >= answer.size()) { d = RobotPoseDelta{0, 0, 0}; return 0; }
    d = answer[i]; return score[i];
  }
};
struct FakeCOE : CellOccupancyEstimator {
  FakeCOE() : CellOccupancyEstimator{Occupancy{1, 1}, Occupancy{0, 1}} {}
  Occupancy estimate_occupancy(const Segment2D &, const Rectangle &, bool occ) override { return {occ ? 1.0 : 0.0, 1}; }
};
struct FakeOMQE : ObservationMappingQualityEstimator {
  double quality(const LaserScan2D::Points &, PointId) const override { return 1; }
};
struct Beam { const GridMap *map; bool occ; double quality; double bx, by, ex, ey; unsigned matched; };
static std::vector<Beam> beams;
struct FakeAdder : GridMapScanAdder {
  FakeAdder() : GridMapScanAdder{std::make_shared<FakeCOE>(), std::make_shared<FakeOMQE>()} {}
  void handle_scan_point(GridMap &map, bool occ, double q, const Segment2D &b) const override {
    beams.push_back({&map, occ, q, b.beg().x, b.beg().y, b.end().x, b.end().y, (unsigned)matches.size()});
  }
};
static int same_pose(const RobotPose &a, const RobotPose &b, double e = 1e-9) { return vand(vnear(a.x, b.x, e), vnear(a.y, b.y, e), vnear(a.theta, b.theta, e)); }
