// C14: branch-and-bound matching returns the best score of an exhaustive search.
#include "verif.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/maps/plain_grid_map.h"
#include "sm_stubs.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const char *SN[] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14", "s15"};
static double sel(int c, double a, double b) { return c ? a : b; }
static double mx(double a, double b) { return sel(a < b, b, a); }
struct Cand { double x, y, r, score; };
// A scoring function over the candidates, with a bound for every area that is the highest score
// inside plus a slack growing with the area.
struct TableSPE : ScanProbabilityEstimator {
  std::vector<Cand> cands; RobotPose init; double finest, slack;
  mutable int strange = 0, evals = 0, at_start = 0; mutable double start_scale = 0;
  TableSPE() : ScanProbabilityEstimator{nullptr} {}
  LaserScan2D filter_scan(const LaserScan2D &s, const RobotPose &, const GridMap &m) override { start_scale = m.scale(); return s; }
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &m, const SPEParams &par) const override {
    ++evals;
    double rot = par.scan_is_prerotated ? std::atan2(s.points()[0].y(), s.points()[0].x()) - init.theta : p.theta - init.theta;
    double x = p.x - init.x, y = p.y - init.y, w = par.sp_analysis_area.hside_len() / 2, h = par.sp_analysis_area.vside_len() / 2, best = -1;
    for (auto &c : cands) if (std::abs(c.r - rot) < 1e-6 && std::abs(c.x - x) <= w + 1e-6 && std::abs(c.y - y) <= h + 1e-6) best = mx(best, c.score);
    if (best < -0.5) { ++strange; return 0; }
    double side = 2 * std::max(w, h);
    if (m.scale() < side - 1e-9) return 0;          // too fine a level does not bound the area
    if (side < 1e-9) return m.scale() == finest ? best : best + 0.25; // too coarse a level is no score
    return best + slack * side;
  }
};
static void split(std::vector<Cand> &out, double l, double r, double b, double t, double step, double rot) {
  bool h = r - l > step - 1e-9, v = t - b > step - 1e-9; double mx = (l + r) / 2, my = (b + t) / 2;
  if (h && v) { split(out, l, mx, b, my, step, rot); split(out, mx, r, b, my, step, rot); split(out, l, mx, my, t, step, rot); split(out, mx, r, my, t, step, rot); return; }
  if (h) { split(out, l, mx, b, t, step, rot); split(out, mx, r, b, t, step, rot); return; }
  if (v) { split(out, l, r, b, my, step, rot); split(out, l, r, my, t, step, rot); return; }
  double px[] = {l, l, r, r, mx}, py[] = {b, t, b, t, my};
  for (int i = 0; i < 5; ++i) out.push_back({px[i], py[i], rot, 0});
}
struct Setup { std::shared_ptr<TableSPE> spe; GridMap *map; };
static void best(double lx, double ly, double lt, double da, double dt, int symbolic, double slack, int levels, double theta, unsigned id = 0, bool again = false, bool prior = false, bool last = false) {
  auto spe = std::make_shared<TableSPE>();
  spe->init = RobotPose{0.5, -0.25, theta}; spe->slack = slack;
  std::vector<Cand> all;
  for (int k = 0; 2 * k * da <= 2 * lt + 1e-9; ++k)
    for (int s = k ? -1 : 1; s <= 1; s += 2) { all.push_back({0, 0, s * k * da, 0}); split(all, -lx, lx, -ly, ly, dt, s * k * da); }
  for (auto &c : all) {
    bool dup = false;
    for (auto &d : spe->cands) if (std::abs(c.x - d.x) + std::abs(c.y - d.y) + std::abs(c.r - d.r) < 1e-6) dup = true;
    if (!dup) spe->cands.push_back(c);
  }
  int n = (int)spe->cands.size(), stride = last ? n - 1 : (n + symbolic - 1) / symbolic;
  for (int i = 0, j = 0; i < n; ++i) spe->cands[i].score = i % stride == 0 && j < 16 ? verif_grid(SN[j++], 0, 0.5, 1.0 / 64) : 0.25 * ((i * 7) % 3) / 2;
  auto &map = *new M3RSMRescalableGridMap<UnboundedPlainGridMap>(std::make_shared<OccupancyOIE>(), std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{levels, levels, 0.125});
  spe->finest = map.scale();
  map.set_scale_id(id == 0 ? 0 : id == 1 ? 1 : map.coarsest_scale_id());
  double vanilla = map.scale();
  bool finer = prior && verif_choose("accuracy", 2);
  auto &sm = prior ? *new BruteForceMultiResolutionScanMatcher(spe, 0.25, 0.125, 0, finer ? 0.2 : da, finer ? 0.3 : dt) : *new BruteForceMultiResolutionScanMatcher(spe, lx, ly, lt, da, dt);
  TransformedLaserScan scan; scan.quality = 1; scan.scan.points().push_back(ScanPoint2D::make_polar(1, 0, true));
  RobotPoseDelta d{7, 7, 7};
  if (prior) { // a matching within another window with another accuracy
    auto now = spe->cands; spe->cands.clear(); spe->cands.push_back({0, 0, 0, 0}); split(spe->cands, -0.25, 0.25, -0.125, 0.125, finer ? 0.3 : dt, 0);
    for (auto &c : spe->cands) c.score = 0.5 - 0.5 * (std::abs(c.x) + std::abs(c.y));
    verif_check(sm.process_scan(scan, spe->init, map, d) == 0.5 && spe->strange == 0, "something outside the search window is tried");
    spe->cands = now; sm.set_lookup_ranges(lx, ly, lt); if (finer) sm.set_target_accuracy(da, dt);
  }
  for (int k = 0; k < 2; ++k) {
    double r = sm.process_scan(scan, spe->init, map, d);
    verif_check(map.scale() == vanilla, "the map is left at another scale");
    verif_check(spe->strange == 0, "something outside the search window is tried");
    double top = 0, start = 0; int attained = 0;
    for (auto &c : spe->cands) {
      top = mx(top, c.score);
      if (c.x == 0 && c.y == 0 && c.r == 0) start = c.score;
      attained = vor(attained, vand(vnear(d.x, c.x, 1e-6), vnear(d.y, c.y, 1e-6), vnear(d.theta, c.r, 1e-6), vnear(r, c.score, 1e-6)));
    }
    verif_check(attained, "the correction does not lead to a pose with the returned score");
    verif_check(r >= top - 1e-6, "a candidate of the window has a higher score");
    verif_check(r >= start - 1e-6, "the result is worse than the initial pose");
    if (k == 0 && T == 0 && !again) break;
    if (again) // other scores, mostly lower ones
      for (int i = 0, j = 8; i < n; ++i) spe->cands[i].score = i % stride == 1 && j < 16 ? verif_grid(SN[j++], 0, 0.5, 1.0 / 64) : 0.125 * ((i * 5) % 3) / 2;
    if (verif_choose("reset", 2)) sm.reset_state();
  }
}
VERIF_ENTRY(c14_window) { best(0.5, 0.5, 0, 0.1, 0.6, T ? 7 : 5, verif_choose("slack", 2) ? 0.125 : 0, 8, 0); }
VERIF_ENTRY(c14_fine) { best(0.5, 0.5, 0, 0.1, 0.3, T ? 4 : 3, verif_choose("slack", 2) ? 0.125 : 0, 8, 0.5); }
VERIF_ENTRY(c14_wide) { best(0.75, 0.25, 0, 0.1, verif_choose("step", 2) ? 0.5 : 0.6, T ? 4 : 3, 0.0625, 4, 0); }
VERIF_ENTRY(c14_tall) { best(0.125, 0.75, 0, 0.1, 0.4, T ? 6 : 4, 0.0625, 4, 0); }
VERIF_ENTRY(c14_rotations) { best(0.5, 0.5, verif_choose("sector", 2) ? 0.125 : 0.1, 0.0625, 0.6, T ? 4 : 3, 0.125, 8, -0.75); }
VERIF_ENTRY(c14_scale) { best(0.5, 0.25, 0.0625, 0.0625, 0.6, 3, 0.125, 8, 0, verif_choose("level", 3)); }
VERIF_ENTRY(c14_again) { best(0.5, 0.25, 0, 0.1, 0.6, 2, 0.125, 8, 0, 0, true); }
VERIF_ENTRY(c14_no_range) { best(0, 0, 0.125, 0.0625, 0.6, 5, 0.125, 8, 0, verif_choose("level", 3)); }

VERIF_ENTRY(c14_ranges) { if (verif_choose("turned", 2)) best(0, 0.25, 0.125, 0.0625, 0.3, 3, 0.125, 8, 0, 0, false, true); else best(0.5, 0.5, 0, 0.1, 0.6, 3, 0.125, 8, 0, 0, false, true); }
VERIF_ENTRY(c14_many_rotations) { best(0, 0, deg2rad(7), deg2rad(0.1), 0.6, 2, 0.125, 4, 0, 0, false, false, true); }
// the real estimators on a real map
using Map = M3RSMRescalableGridMap<UnboundedPlainGridMap>;
struct Real { Map *map; std::shared_ptr<WeightedMeanPointProbabilitySPE> spe; TransformedLaserScan scan; };
static Real real(bool all, int symbolic, int points, bool far = false) {
  Real r; auto oie = std::make_shared<OccupancyOIE>();
  r.map = new Map(oie, std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{8, 8, 0.25});
  int k = 0;
  // cells around (1, 0) and (0, 1) within the window and one cell more
  for (int x = -4; x < 8; ++x) for (int y = -4; y < 8; ++y) {
    double cx = (x + 0.5) * 0.25, cy = (y + 0.5) * 0.25;
    bool n1 = std::abs(cx - 1) < 0.8 && std::abs(cy) < 0.8, n2 = std::abs(cy - 1) < 0.8 && std::abs(cx) < 0.8;
    if (!n1 && !n2) continue;
    bool inner = n1 && std::abs(cx - 1) < 0.5 && std::abs(cy) < 0.5;
    double v = inner && (x + y) % 2 == 0 && (!far || x >= 4) && k < symbolic ? verif_grid(SN[k++], 0, 1, 1.0 / 64) : 0.125 * ((x * 3 + y * 5 + 64) % 7);
    if (!all && (x + 2 * y) % 3 == 0) continue;
    r.map->update({x, y}, AreaOccupancyObservation{true, {v, 1}, {0, 0}, 1});
  }
  auto oope = std::make_shared<MaxOccupancyObservationPE>(oie);
  r.spe = std::make_shared<WeightedMeanPointProbabilitySPE>(oope, std::make_shared<EvenSPW>());
  r.scan.quality = 1;
  r.scan.scan.points().push_back(ScanPoint2D::make_polar(1, 0, true));
  if (points > 1) r.scan.scan.points().push_back(ScanPoint2D::make_polar(1, M_PI / 2, true));
  return r;
}
static double at(Real &r, const RobotPose &p, double x, double y, double t) {
  r.map->rescale(0);
  auto s = r.spe->filter_scan(r.scan.scan, p, *r.map).to_cartesian(p.theta + t);
  return r.spe->estimate_scan_probability(s, {p.x + x, p.y + y, 0}, *r.map, {{0, 0, 0, 0}, true});
}
static void real_window(double lx, double ly, bool far = false) {
  auto r = real(true, 5, 1 + T, far);
  double step = 0.3; RobotPose p{0, 0, 0}; double da = 0.0625, lt = T ? 0.0625 : 0;
  std::vector<Cand> all;
  for (int k = 0; 2 * k * da <= 2 * lt + 1e-9; ++k)
    for (int s = k ? -1 : 1; s <= 1; s += 2) { all.push_back({0, 0, s * k * da, 0}); split(all, -lx, lx, -ly, ly, step, s * k * da); }
  double top = 0;
  for (auto &c : all) { c.score = at(r, p, c.x, c.y, c.r); top = mx(top, c.score); }
  r.map->set_scale_id(1); double vanilla = r.map->scale();
  auto &sm = *new BruteForceMultiResolutionScanMatcher(r.spe, lx, ly, lt, da, step);
  RobotPoseDelta d;
  double res = sm.process_scan(r.scan, p, *r.map, d);
  verif_check(r.map->scale() == vanilla, "the map is left at another scale");
  int attained = 0;
  for (auto &c : all) attained = vor(attained, vand(vnear(d.x, c.x, 1e-6), vnear(d.y, c.y, 1e-6), vnear(d.theta, c.r, 1e-6), vnear(res, c.score, 1e-6)));
  verif_check(attained, "the correction does not lead to a pose with the returned score");
  verif_check(vnear(res, top, 1e-6), "the result is not the best score of the window");
}
VERIF_ENTRY(c14_real) { real_window(0.25, 0.25); }
VERIF_ENTRY(c14_line) { if (verif_choose("vertical", 2)) real_window(0, 0.5, true); else real_window(0.5, 0, true); }
// the bound of an area is not below the score of a pose inside
static void bounds(bool all) {
  auto r = real(all, 4 + 2 * T, 1, verif_choose("far", 2));
  const double B[][4] = {{-0.5, 0.5, -0.5, 0.5}, {-0.25, 0.25, 0, 0.5}, {-0.5, -0.25, -0.25, 0}, {0, 0.5, 0, 0.5}, {-0.125, 0.125, -0.375, -0.125}, {0, 0, -0.5, 0.5}, {-0.5, 0.5, 0.125, 0.125}};
  auto &b = B[verif_choose("area", 7)];
  LightWeightRectangle area{b[0], b[1], b[2], b[3]};
  auto s = r.spe->filter_scan(r.scan.scan, RobotPose{0, 0, 0}, *r.map).to_cartesian(0);
  r.map->rescale(std::max(area.hside_len(), area.vside_len()));
  double bound = r.spe->estimate_scan_probability(s, {area.center().x, area.center().y, 0}, *r.map, {area, true});
  for (int i = 0; i <= 4; ++i) for (int j = 0; j <= 4; ++j) {
    double x = b[2] + (b[3] - b[2]) * i / 4, y = b[0] + (b[1] - b[0]) * j / 4;
    r.map->rescale(0);
    double v = r.spe->estimate_scan_probability(s, {x, y, 0}, *r.map, {{0, 0, 0, 0}, true});
    if ((*r.map)[r.map->world_to_cell(1 + x, y)].is_unknown()) verif_known(v <= bound + 1e-6, "unknown-cell-above-bound", "a pose on an unknown cell scores above the bound of its area");
    else verif_check(v <= bound + 1e-6, "a pose scores above the bound of its area");
  }
}
VERIF_ENTRY(c14_bound) { bounds(true); }
VERIF_ENTRY(c14_bound_unknown) { bounds(false); }
// a scan without usable points
VERIF_ENTRY(c14_unknown) {
  auto r = real(false, 2, 1); r.scan.scan.points().clear();
  for (int i = verif_choose("points", 3); i > 0; --i) r.scan.scan.points().push_back(ScanPoint2D::make_polar(verif_grid("range", 0, 4, 1.0 / 64), 0.5 * i, false));
  r.map->set_scale_id(verif_choose("level", 2)); double vanilla = r.map->scale();
  auto &sm = *new BruteForceMultiResolutionScanMatcher(r.spe, verif_choose("wide", 2) * 0.25, 0.25, verif_choose("turn", 2) * 0.0625, 0.0625, 0.3);
  for (int k = 0; k < 2; ++k) {
    RobotPoseDelta d{7, 7, 7};
    double res = sm.process_scan(r.scan, RobotPose{0.5, -0.25, 0.75}, *r.map, d);
    verif_check(ScanProbabilityEstimator::is_prob_unknown(res), "a scan that cannot be scored has a score");
    verif_check(vand(d.x == 0, d.y == 0, d.theta == 0), "a scan that cannot be scored moves the robot");
    verif_check(r.map->scale() == vanilla, "the map is left at another scale");
  }
}
