// C21: a scan moves the pose by odometry and correction, is mapped at that pose, and subscribers are told.
#include "verif.h"
#include "world_stubs.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 64;
using World1 = SingleStateHypothesisLaserScanGridWorld;
struct Told { RobotPose pose; const GridMap *map; unsigned beams; };
struct Obs : WorldPoseObserver, WorldMapObserver<GridMap> {
  std::vector<Told> poses, maps; bool alive = true;
  void on_pose_update(const RobotPose &p) override { poses.push_back({p, nullptr, (unsigned)beams.size()}); }
  void on_map_update(const GridMap &m) override { maps.push_back({RobotPose{}, &m, (unsigned)beams.size()}); }
};
static const double Th[] = {0, 0.5, -1.25, 3};
static RobotPoseDelta delta(const char *n, int any) { // nothing, or at least 1/64 somewhere
  if (!any) return {0, 0, 0};
  RobotPoseDelta d{verif_grid(n, -4, 4, Q), verif_grid(n, -4, 4, Q), 0};
  return d;
}
struct Rig { std::shared_ptr<FakeMatcher> sm; World1 *w; GridMap *map; double loc, raw; int margin; };
static Rig rig(int margin) {
  Rig r; r.sm = std::make_shared<FakeMatcher>();
  auto map = std::make_shared<PlainGridMap>(std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{3, 3, 1});
  r.loc = verif_grid("localized", 0, 1, Q); r.raw = verif_grid("raw", 0, 1, Q); r.margin = margin;
  SingleStateHypothesisLSGWProperties p; p.localized_scan_quality = r.loc; p.raw_scan_quality = r.raw; p.scan_margin = margin;
  p.grid_map = map; p.gsm = r.sm; p.gmsa = std::make_shared<FakeAdder>();
  r.map = map.get(); r.w = new World1{p};
  return r;
}
static int nonzero(const RobotPoseDelta &d) { double e = 1e-3; return vor(vor(vor(d.x >= e, d.x <= -e), vor(d.y >= e, d.y <= -e)), vor(d.theta >= e, d.theta <= -e)); }
static TransformedLaserScan scan(int n, const RobotPoseDelta &odom) {
  TransformedLaserScan s; s.pose_delta = odom; s.quality = 0.25;
  for (int i = 0; i < n; ++i) s.scan.points().push_back(ScanPoint2D::make_polar(1 + i, 0.75 * i - 0.5, i != 1));
  return s;
}
// a history of scans; subscribers come and go
static void history(int steps, int any_theta, int margin) {
  auto r = rig(margin);
  auto &obs = *new std::vector<std::shared_ptr<Obs>>(); // kept alive unless dropped
  std::vector<Obs *> &all = *new std::vector<Obs *>(); std::vector<int> live;
  RobotPose pose = r.w->pose();
  verif_check(vand(pose.x == 0, pose.y == 0, pose.theta == 0), "the world does not start at the origin");
  for (int k = 0; k < steps; ++k) {
    // subscriptions
    int act = verif_choose("subscription", 4);
    if (act == 1 || (k == 0 && act)) { auto o = std::make_shared<Obs>(); r.w->subscribe_pose(o); r.w->subscribe_map(o); obs.push_back(o); all.push_back(o.get()); live.push_back(1); }
    if (act == 3) { auto o = std::make_shared<Obs>(); r.w->subscribe_pose(o); obs.push_back(o); all.push_back(o.get()); live.push_back(2); }
    if (act == 2 && k > 0 && !live.empty() && live[0] == 1) { obs[0] = nullptr; live[0] = 0; }
    std::vector<size_t> np, nm;
    for (size_t i = 0; i < all.size(); ++i) { np.push_back(live[i] ? all[i]->poses.size() : 0); nm.push_back(live[i] ? all[i]->maps.size() : 0); }
    // the scan
    RobotPoseDelta odom{verif_grid("ox", -4, 4, Q), verif_grid("oy", -4, 4, Q), any_theta ? Th[verif_choose("otheta", 3 + T)] : 0};
    int found = verif_choose("correction", 3);
    RobotPoseDelta corr = delta("corr", found);
    if (found == 2) corr.theta = -0.5;
    int nz = nonzero(corr);
    verif_assume(vor(nz, vand(corr.x == 0, corr.y == 0, corr.theta == 0)));
    r.sm->answer.push_back(corr); r.sm->score.push_back(0.5);
    RobotPose predicted{pose.x + odom.x, pose.y + odom.y, pose.theta + odom.theta}, final{predicted.x + corr.x, predicted.y + corr.y, predicted.theta + corr.theta};
    auto s = scan(3, odom);
    size_t m0 = matches.size(), b0 = beams.size(); unsigned r0 = r.sm->resets;
    r.w->handle_sensor_data(s);
    verif_check(matches.size() == m0 + 1, "not exactly one matching per scan");
    verif_check(r.sm->resets > r0, "the matcher is not reset before a scan");
    auto &m = matches.back();
    verif_check(same_pose(m.pose, predicted), "the scan is not matched at the predicted pose");
    verif_check(m.map == r.map && m.points == 3, "the scan is not matched with the current map");
    verif_check(same_pose(r.w->pose(), final), "the pose is not moved by odometry and correction");
    verif_check(&r.w->map() == r.map, "the map of the world changes");
    verif_check(beams.size() == b0 + 3 - 2 * margin, "not every beam is mapped once");
    double q = nz ? r.loc : r.raw;
    for (size_t i = b0; i < beams.size(); ++i) {
      auto &b = beams[i]; int j = (int)(i - b0) + margin;
      double a = pose.theta + odom.theta + corr.theta + (0.75 * j - 0.5), R = 1 + j;
      verif_check(b.map == r.map && b.matched == matches.size(), "the scan is not added to the map after matching");
      verif_check(b.occ == (j != 1), "a beam changes its occupancy");
      verif_check(vnear(b.quality, q, 1e-12), "the quality of the scan does not follow from the correction");
      verif_check(vand(vnear(b.bx, final.x, 1e-9), vnear(b.by, final.y, 1e-9)), "the scan is not added at the corrected pose");
      verif_check(vand(vnear(b.ex, final.x + R * std::cos(a), 1e-6), vnear(b.ey, final.y + R * std::sin(a), 1e-6)), "a beam does not end at its point");
    }
    for (size_t i = 0; i < all.size(); ++i) if (live[i]) {
      verif_check(all[i]->poses.size() == np[i] + 1, "a subscriber is not told the pose exactly once");
      verif_check(all[i]->maps.size() == nm[i] + (live[i] == 1), "a subscriber is not told the map exactly once");
      auto &p = all[i]->poses.back();
      verif_check(vand(same_pose(p.pose, final), p.beams == beams.size()), "a subscriber is not told the final pose");
      if (live[i] == 1) verif_check(all[i]->maps.back().map == r.map && all[i]->maps.back().beams == beams.size(), "a subscriber is not given the final map");
    }
    pose = final;
  }
}
VERIF_ENTRY(c21_history) { history(2 + T, 0, 0); }
VERIF_ENTRY(c21_turning) { history(1 + T, 1, verif_choose("margin", 2)); }
// scans without points move the pose, too
VERIF_ENTRY(c21_empty) {
  auto r = rig(0);
  RobotPoseDelta odom{verif_grid("ox", -4, 4, Q), verif_grid("oy", -4, 4, Q), verif_grid("ot", -3, 3, Q)}, corr = delta("corr", 1);
  r.sm->answer.push_back(corr); r.sm->score.push_back(0);
  auto s = scan(0, odom);
  r.w->handle_sensor_data(s);
  verif_check(same_pose(r.w->pose(), {odom.x + corr.x, odom.y + corr.y, odom.theta}), "the pose is not moved by odometry and correction");
  verif_check(beams.empty(), "a beam out of nowhere");
}
// odometry alone
VERIF_ENTRY(c21_odometry) {
  auto r = rig(0); RobotPose p{0, 0, 0};
  for (int i = 0; i < 3; ++i) {
    RobotPoseDelta d{verif_grid("x", -4, 4, Q), verif_grid("y", -4, 4, Q), verif_grid("t", -3, 3, Q)};
    r.w->update_robot_pose(d);
    p.x += d.x; p.y += d.y; p.theta += d.theta;
    verif_check(same_pose(r.w->pose(), p), "the pose does not follow odometry");
  }
  verif_check(matches.empty() && beams.empty(), "odometry alone is matched or mapped");
}
// observers of the matcher
struct SmObs : GridScanMatcherObserver { int n = 0; void on_matching_start(const RobotPose &, const TransformedLaserScan &, const GridMap &) override { ++n; } };
VERIF_ENTRY(c21_matcher_observers) {
  struct M : FakeMatcher {
    double process_scan(const TransformedLaserScan &s, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override {
      for (auto &w : observers()) { auto o = w.lock(); if (o) o->on_matching_start(p, s, m); }
      return FakeMatcher::process_scan(s, p, m, d);
    }
  };
  auto sm = std::make_shared<M>();
  SingleStateHypothesisLSGWProperties p; p.grid_map = std::make_shared<PlainGridMap>(std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{3, 3, 1}); p.gsm = sm; p.gmsa = std::make_shared<FakeAdder>();
  auto &w = *new World1{p};
  auto a = std::make_shared<SmObs>(), b = std::make_shared<SmObs>();
  int na = 0, nb = 0, ina = 0, inb = 0;
  for (int k = 0; k < 3; ++k) {
    switch (verif_choose("act", 4)) {
    case 0: if (!ina) { w.add_sm_observer(a); ina = 1; } break;
    case 1: if (!inb) { w.add_sm_observer(b); inb = 1; } break;
    case 2: w.remove_sm_observer(a); ina = 0; break;
    case 3: w.remove_sm_observer(b); inb = 0; break;
    }
    auto s = scan(1, {1, 0, 0});
    w.handle_sensor_data(s);
    na += ina; nb += inb;
    verif_check(a->n == na && b->n == nb, "an observer of the matcher is told although it is not subscribed, or not told");
  }
}
VERIF_ENTRY(c21_many) { // long runs, many subscribers
  auto r = rig(0); const int n = 300;
  auto &obs = *new std::vector<std::shared_ptr<Obs>>();
  for (int i = 0; i < n; ++i) { auto o = std::make_shared<Obs>(); r.w->subscribe_pose(o); r.w->subscribe_map(o); obs.push_back(o); }
  double ox = verif_grid("ox", -4, 4, Q), x = 0;
  r.sm->answer.resize(n, RobotPoseDelta{0.25, 0, 0}); r.sm->score.resize(n, 0.5);
  for (int k = 0; k < n; ++k) { auto s = scan(1, {k == 270 ? ox : 0.5, 0, 0}); r.w->handle_sensor_data(s); x += (k == 270 ? ox : 0.5) + 0.25; }
  verif_check(same_pose(r.w->pose(), RobotPose{x, 0, 0}), "the pose is not moved by odometry and correction");
  verif_check(matches.size() == n && beams.size() == n, "not exactly one matching per scan");
  int ok = 1; for (auto &o : obs) ok &= o->poses.size() == n && o->maps.size() == n;
  verif_check(ok, "a subscriber is not told the pose exactly once");
  verif_check(same_pose(obs[280]->poses.back().pose, RobotPose{x, 0, 0}), "a subscriber is not told the final pose");
}
