// Stand-ins for the parts around a scan matcher: every score is a fresh symbolic value per pose.
#pragma once
#include "core/scan_matchers/grid_scan_matcher.h"
#include "core/maps/plain_grid_map.h"
struct Tried { RobotPose pose; double score; };
static int same_pose(const RobotPose &a, const RobotPose &b, double e = 1e-9) { return vand(vnear(a.x, b.x, e), vnear(a.y, b.y, e), vnear(a.theta, b.theta, e)); }
static int exact_pose(const RobotPose &a, const RobotPose &b) { return vand(a.x == b.x, a.y == b.y, a.theta == b.theta); }
struct ScoreSPE : ScanProbabilityEstimator {
  mutable std::vector<Tried> log;
  std::function<double(int, const RobotPose &)> score;
  size_t filtered = 0; RobotPose filter_pose; const GridMap *filter_map = nullptr;
  mutable size_t bad_scan = 0;
  size_t drop = 0; // points removed by the filter
  ScoreSPE(std::function<double(int, const RobotPose &)> s) : ScanProbabilityEstimator{nullptr}, score{s} {}
  LaserScan2D filter_scan(const LaserScan2D &scan, const RobotPose &p, const GridMap &m) override {
    ++filtered; filter_pose = p; filter_map = &m;
    LaserScan2D r; r.trig_provider = scan.trig_provider;
    for (size_t i = drop; i < scan.points().size(); ++i) r.points().push_back(scan.points()[i]);
    return r;
  }
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &, const SPEParams &) const override {
    if (filtered && s.points().size() != expect) ++bad_scan;
    double v = score((int)log.size(), p);
    log.push_back({p, v});
    return v;
  }
  size_t expect = 0;
};
static GridMap &some_map() { return *new PlainGridMap(std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{1, 1, 1}); }
static TransformedLaserScan some_scan(int n) {
  TransformedLaserScan s; s.quality = 1;
  for (int i = 0; i < n; ++i) s.scan.points().push_back(ScanPoint2D::make_polar(1 + i, 0.5 * i, true));
  return s;
}
