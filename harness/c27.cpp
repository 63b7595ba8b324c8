// C27: the ambiguous drift detector corrects a match only along the prevailing direction of the scan.
#include "verif.h"
#include <iostream>
#include "world_stubs.h"
#include "core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Step = M_PI / 20;
static double mid(int bin) { return Step * (bin + 0.5); }
static int exact_pose(const RobotPose &a, const RobotPose &b) { return vand(a.x == b.x, a.y == b.y, a.theta == b.theta); }
static GridMap &some_map() { return *new PlainGridMap(std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{1, 1, 1}); }
// what was scored: the points used, the pose, the answer
struct Scored { unsigned mask; RobotPose pose; double score; const GridMap *map; };
struct DriftSPE : ScanProbabilityEstimator {
  mutable std::vector<Scored> log;
  std::function<double(unsigned, int)> score; // by points and pose number
  const LaserScan2D *all = nullptr; unsigned drop = 0, filtered = 0; RobotPose at; const GridMap *on = nullptr;
  DriftSPE() : ScanProbabilityEstimator{nullptr} {}
  LaserScan2D filter_scan(const LaserScan2D &s, const RobotPose &p, const GridMap &m) override {
    ++filtered; at = p; on = &m;
    LaserScan2D r; r.trig_provider = s.trig_provider;
    for (size_t i = drop; i < s.points().size(); ++i) r.points().push_back(s.points()[i]);
    return r;
  }
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &m, const SPEParams &) const override {
    unsigned mask = 0;
    for (auto &sp : s.points())
      for (size_t i = 0; i < all->points().size(); ++i)
        if (all->points()[i].x() == sp.x() && all->points()[i].y() == sp.y()) mask |= 1u << i;
    for (auto &e : log) if (e.mask == mask && e.pose.x == p.x && e.pose.y == p.y) return e.score;
    double v = score(mask, (int)log.size());
    log.push_back({mask, p, v, &m});
    return v;
  }
};
static const int Bins[][3] = {{3, 11, 17}, {0, 9, 19}, {12, 2, 5}};
static const double Thetas[] = {0, 1.25, -2.5};

struct Scene {
  DriftSPE &spe; FakeMatcher &sm; ConnectTheDotsAmbiguousDriftDetector &dd;
  TransformedLaserScan &scan; GridMap &map; RobotPose init; RobotPoseDelta d; double wrapped;
  std::vector<int> bin; // of point i >= 1 (in the filtered scan)
};
static Scene scene(const std::vector<int> &bins, int drop, RobotPose init, RobotPoseDelta ans, double wrapped) {
  auto spe = std::make_shared<DriftSPE>();
  auto sm = std::make_shared<FakeMatcher>();
  sm->set_scan_probability_estimator(spe);
  sm->answer = {ans}; sm->score = {wrapped};
  auto &scan = *new TransformedLaserScan(); scan.quality = 1;
  double x = 2, y = 1; int n = 0;
  auto add = [&] { scan.scan.points().push_back(ScanPoint2D::make_cartesian({x, y}, true)); };
  for (int i = 0; i < drop; ++i) { add(); x += 0.25; y -= 1.5; } // points the filter removes
  add();
  for (int b : bins) {
    double a = mid(b), l = 1 + 0.125 * n; if (n++ % 2) l = -l;
    x += l * std::cos(a); y += l * std::sin(a); add();
  }
  spe->all = &scan.scan; spe->drop = drop;
  auto &dd = *new ConnectTheDotsAmbiguousDriftDetector(sm);
  return {*spe, *sm, dd, scan, some_map(), init, ans, wrapped, bins};
}
static void run(Scene &s) {
  size_t n = s.bin.size() + 1; unsigned drop = s.spe.drop;
  RobotPoseDelta got{7, 7, 7};
  matches.clear();
  double p = s.dd.process_scan(s.scan, s.init, s.map, got);
  verif_check(matches.size() == 1, "the wrapped matcher does not match exactly once");
  verif_check(vand(exact_pose(matches[0].pose, s.init), matches[0].map == &s.map, matches[0].points == s.scan.scan.points().size()),
              "the wrapped matcher gets another scan, pose or map");
  std::vector<int> cnt(20, 0); int top = 0;
  for (int b : s.bin) top = std::max(top, ++cnt[b]);
  RobotPose base = s.init + s.d, fin = s.init + got;
  verif_observe_d("x", got.x); verif_observe_d("y", got.y); verif_observe_d("theta", got.theta); verif_observe_d("p", p);
  // two directions may be equally popular: any of them may be the one that is analysed
  if (top * 10 < (int)n * 4) {
    verif_cover("no prevailing direction");
    verif_check(vand(same_pose(fin, base, 1e-12), p == s.wrapped), "a match without a prevailing direction is altered");
    return;
  }
  verif_cover("a prevailing direction");
  verif_check(vnear(fin.theta, base.theta, 1e-9), "the drift analysis rotates the robot");
  unsigned mask = ~0u, whole = 0, all = 0; int n_mask = 0;
  for (size_t i = 0; i < n; ++i) all |= 1u << (i + drop);
  for (auto &e : s.spe.log) {
    verif_check(e.map == &s.map, "a score on another map");
    if (e.mask == all) { whole = 1; continue; }
    if (mask != e.mask) { mask = e.mask; ++n_mask; }
  }
  verif_check(n_mask == 1, "the tried poses are scored with different points");
  int along = -1; // the direction whose points do not take part
  for (int b = 0; b < 20; ++b) {
    if (cnt[b] != top) continue;
    int ok = 1;
    for (size_t i = 1; i < n; ++i) {
      int in = mask >> (i + drop) & 1;
      if (s.bin[i - 1] == b ? in : !in && cnt[s.bin[i - 1]] != top) ok = 0;
    }
    double a = mid(b) + s.init.theta + s.d.theta, c = std::cos(a), si = std::sin(a);
    for (auto &e : s.spe.log)
      if (e.mask != all && !vnear(si * (e.pose.x - base.x) - c * (e.pose.y - base.y), 0, 1e-6)) ok = 0;
    if (ok) along = b;
  }
  verif_check(along >= 0, "the drift is not sought along the prevailing direction with the other points");
  double a = mid(along) + s.init.theta + s.d.theta, c = std::cos(a), si = std::sin(a);
  std::vector<double> ts; double got_best = 0; int found = 0, worse = 0;
  for (auto &e : s.spe.log) {
    if (e.mask == all) continue;
    double t = c * (e.pose.x - base.x) + si * (e.pose.y - base.y);
    verif_check(vand(t <= 0.25 + 1e-6, t >= -0.25 - 1e-6, vnear(e.pose.theta, base.theta, 1e-9)), "a pose out of reach is tried");
    ts.push_back(t);
    int here = same_pose(e.pose, fin);
    found = vor(found, here);
    got_best = here ? e.score : got_best;
  }
  verif_check(found, "the final pose was not scored");
  for (auto &e : s.spe.log) if (e.mask != all) worse = vor(worse, e.score > got_best);
  verif_check(!worse, "a better pose along the prevailing direction is ignored");
  std::sort(ts.begin(), ts.end());
  for (size_t i = 1; i < ts.size(); ++i) verif_check(ts[i] - ts[i - 1] <= 0.1 + 1e-6, "a part of the direction is not explored");
  verif_check(vand(ts.front() <= -0.15 + 1e-6, ts.back() >= 0.15 - 1e-6), "an end of the direction is not explored");
  int valued = 0;
  for (auto &e : s.spe.log) if (e.mask == all) valued = vor(valued, vand(same_pose(e.pose, fin), e.score == p));
  verif_check(vand((int)whole, valued), "the returned score is not that of the whole scan at the final pose");
}

// every mixture of three directions
VERIF_ENTRY(c27_directions) {
  int n = verif_choose("pairs", T ? 6 : 5), set = verif_choose("bins", 3);
  std::vector<int> bins;
  for (int i = 0; i < n; ++i) bins.push_back(Bins[set][verif_choose("direction", 3)]);
  double th = Thetas[(n + set) % 3];
  auto &s = *new Scene(scene(bins, verif_choose("removed", 2), {1, -2, th}, {0.5, 0.25, -0.125}, verif_real("matched", 0, 1)));
  int best = n % 8; 
  s.spe.score = [best](unsigned m, int i) { return m == 0 ? 0.5 : i == best ? 0.75 : 0.25 + i * 0.01; };
  run(s);
}
// any scores, any correction of the wrapped matcher
VERIF_ENTRY(c27_scores) {
  static const int P[][6] = {{3, 3, 11, 3, 17, 3}, {9, 0, 9, 0, 9, 19}, {19, 5, 19, 5, 19, 12}, {7, 7, 7, 7, 7, 7}};
  int k = T ? verif_choose("pattern", 4) : verif_bool("first_prevails") ? 0 : 2;
  RobotPose init{verif_real("x", -10, 10), verif_real("y", -10, 10), Thetas[T ? verif_choose("theta", 3) : 1 + k / 2]};
  RobotPoseDelta d{verif_real("dx", -1, 1), verif_real("dy", -1, 1), 0.375};
  auto &s = *new Scene(scene(std::vector<int>(P[k], P[k] + 6), 0, init, d, verif_real("matched", 0, 1)));
  s.spe.score = [](unsigned, int i) { return verif_real(("score" + std::to_string(i)).c_str(), 0, 1); };
  run(s);
}
// resets reach the wrapped matcher
VERIF_ENTRY(c27_reset) {
  auto spe = std::make_shared<DriftSPE>();
  auto sm = std::make_shared<FakeMatcher>();
  sm->set_scan_probability_estimator(spe);
  auto &dd = *new ConnectTheDotsAmbiguousDriftDetector(sm);
  verif_check(dd.scan_probability_estimator() == spe, "the detector scores with another estimator");
  int n = verif_int("resets", 0, 3);
  for (int i = 0; i < 3; ++i) if (i < n) dd.reset_state();
  verif_cover("reset");
  verif_check((int)sm->resets == n, "a reset does not reach the wrapped matcher");
}
