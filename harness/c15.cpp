// C15: the likelihood of a scan is the weighted mean of the likelihoods of its points; the filter keeps the usable points.
#include "verif.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/maps/plain_grid_map.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 16;
typedef LaserScan2D::Points Points;
typedef ScanProbabilityEstimator::SPEParams Params;
struct Asked { AreaOccupancyObservation aoo; LightWeightRectangle area; const GridMap *map; };
struct TableOOPE : OccupancyObservationProbabilityEstimator {
  std::vector<double> p; mutable std::vector<Asked> log;
  TableOOPE() : OccupancyObservationProbabilityEstimator{std::make_shared<OccupancyOIE>()} {}
  double probability(const AreaOccupancyObservation &aoo, const LightWeightRectangle &area, const GridMap &map) const override {
    log.push_back({aoo, area, &map});
    return log.size() <= p.size() ? p[log.size() - 1] : -1;
  }
};
struct TableSPW : ScanPointWeighting {
  std::vector<double> w; size_t resets = 0, seen = 0; mutable int bad = 0;
  void reset(const LaserScan2D &s) override { ++resets; seen = s.points().size(); }
  double weight(const Points &pts, PointId i) const override { if (pts.size() != w.size() || i >= w.size()) { bad = 1; return 0; } return w[i]; }
};
static GridMap &bounded_map(int w, int h, double s) { return *new PlainGridMap(std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{w, h, s}); }
static int is_unknown(double v) { return ScanProbabilityEstimator::is_prob_unknown(v); }
static void mean(double r, const std::vector<double> &p, const std::vector<double> &w, double total) {
  double sum = 0, lo = 2, hi = -1;
  for (size_t i = 0; i < p.size(); ++i) {
    sum += p[i] * w[i];
    int used = w[i] > 0;
    lo = vand(used, p[i] < lo) ? p[i] : lo; hi = vand(used, p[i] > hi) ? p[i] : hi;
  }
  verif_check(!is_unknown(r), "the likelihood is unknown although a point has weight");
  verif_check(vnear(r * total, sum, 1e-9), "not the weighted mean of the likelihoods");
  verif_check(vand(r >= lo - 1e-9, r <= hi + 1e-9), "the likelihood is out of the range of the likelihoods of points");
}
static double probability() { return verif_grid("p", 0, 1, 1.0 / 64); }
// any likelihoods and weights
VERIF_ENTRY(c15_mean) {
  int n = verif_choose("points", T ? 5 : 4);
  auto oope = std::make_shared<TableOOPE>(); auto spw = std::make_shared<TableSPW>();
  auto &scan = *new LaserScan2D();
  double total = 0;
  for (int i = 0; i < n; ++i) {
    scan.points().push_back(ScanPoint2D::make_polar(1 + i, 0.3 * i, true));
    oope->p.push_back(probability()); spw->w.push_back(verif_grid("w", 0, 4, Q)); total += spw->w[i];
  }
  verif_assume(vor(total == 0, total >= Q));
  auto &sw = *new WeightedMeanPointProbabilitySPE(oope, spw); ScanProbabilityEstimator &spe = sw;
  RobotPose pose{verif_grid("x", -9, 9, Q), verif_grid("y", -9, 9, Q), 0.25};
  double r = spe.estimate_scan_probability(scan, pose, bounded_map(3, 3, 1));
  verif_check(!spw->bad, "the weight of an unknown point is used");
  verif_check((int)oope->log.size() == n, "not every point is evaluated once");
  if (total == 0) { verif_check(is_unknown(r), "no point has weight but the likelihood is known"); return; }
  mean(r, oope->p, spw->w, total);
  // other units of weight
  static const double K[] = {3, 1.0 / (1 << 30), 1 << 20};
  double k = K[verif_choose("scale", 3)];
  for (auto &w : spw->w) w *= k;
  oope->log.clear();
  double r2 = spe.estimate_scan_probability(scan, pose, bounded_map(3, 3, 1));
  verif_check(!is_unknown(r2), "the likelihood is unknown although a point has weight");
  verif_check(vnear(r * total, r2 * total, 1e-9), "the scale of weights changes the likelihood");
}
// all points equally likely
VERIF_ENTRY(c15_common) {
  int n = 1 + verif_choose("points", 4);
  auto oope = std::make_shared<TableOOPE>(); auto spw = std::make_shared<TableSPW>();
  auto &scan = *new LaserScan2D();
  double p = probability(), total = 0;
  for (int i = 0; i < n; ++i) {
    scan.points().push_back(ScanPoint2D::make_cartesian({1.0 + i, -0.5 * i}, i % 2));
    oope->p.push_back(p); spw->w.push_back(verif_grid("w", 0, 4, Q)); total += spw->w[i];
  }
  verif_assume(total >= Q);
  auto &sw = *new WeightedMeanPointProbabilitySPE(oope, spw); ScanProbabilityEstimator &spe = sw;
  double r = spe.estimate_scan_probability(scan, {0, 0, 0}, bounded_map(3, 3, 1));
  verif_check(vnear(r * total, p * total, 1e-9), "equally likely points yield another likelihood");
}
// what is asked about each point
VERIF_ENTRY(c15_points) {
  int n = 2 + T, pre = verif_choose("prerotated", 2);
  static const double Th[] = {0, 0.5, -2, 3};
  auto oope = std::make_shared<TableOOPE>(); auto spw = std::make_shared<TableSPW>();
  auto &scan = *new LaserScan2D();
  std::vector<double> px, py;
  double th = Th[verif_choose("theta", T ? 4 : 3)];
  RobotPose pose{verif_grid("x", -9, 9, Q), verif_grid("y", -9, 9, Q), th};
  double c = std::cos(pre ? 0 : th), s = std::sin(pre ? 0 : th);
  int cart = pre ? verif_choose("cartesian", 2) : 0;
  for (int i = 0; i < n; ++i) {
    if (cart) {
      double x = verif_grid("px", -4, 4, Q), y = verif_grid("py", -4, 4, Q);
      scan.points().push_back(ScanPoint2D::make_cartesian({x, y}, true));
      px.push_back(pose.x + x); py.push_back(pose.y + y);
    } else {
      double rg = verif_grid("range", 0, 8, Q), a = i * 0.75 - 0.5;
      scan.points().push_back(ScanPoint2D::make_polar(rg, a, true));
      double t = (pre ? 0 : th) + a;
      px.push_back(pose.x + rg * std::cos(t)); py.push_back(pose.y + rg * std::sin(t));
    }
    oope->p.push_back(probability()); spw->w.push_back(1 + i);
  }
  auto &sw = *new WeightedMeanPointProbabilitySPE(oope, spw); ScanProbabilityEstimator &spe = sw;
  Params pr; pr.scan_is_prerotated = pre;
  double hw = 0, hh = 0;
  if (verif_choose("area", 2)) { hw = verif_grid("hw", Q, 2, Q); hh = verif_grid("hh", Q, 2, Q); }
  pr.sp_analysis_area = LightWeightRectangle{-hh, hh, -hw, hw};
  auto &map = bounded_map(3, 3, 1);
  // an earlier evaluation elsewhere does not matter
  if (verif_choose("before", 2)) { spe.estimate_scan_probability(scan, {1, 2, 1}, map, pr); oope->log.clear(); }
  double r = spe.estimate_scan_probability(scan, pose, map, pr);
  mean(r, oope->p, spw->w, n * (n + 1) / 2.0);
  verif_check((int)oope->log.size() == n, "not every point is evaluated once");
  for (int i = 0; i < n && i < (int)oope->log.size(); ++i) {
    auto &a = oope->log[i];
    verif_check(a.map == &map, "another map is asked");
    verif_check(vand(a.aoo.is_occupied, a.aoo.occupancy.prob_occ == 1), "a point is not evaluated as an obstacle");
    verif_check(vand(vnear(a.aoo.obstacle.x, px[i], 1e-9), vnear(a.aoo.obstacle.y, py[i], 1e-9)), "the obstacle is not at the point");
    verif_check(vand(vnear(a.area.left(), px[i] - hw, 1e-9), vnear(a.area.right(), px[i] + hw, 1e-9), vnear(a.area.bot(), py[i] - hh, 1e-9), vnear(a.area.top(), py[i] + hh, 1e-9)), "the analysed area is not the one around the point");
  }
}
// the weightings of the system
VERIF_ENTRY(c15_weightings) {
  int kind = verif_choose("weighting", 3), layout = verif_choose("layout", 3);
  static const double Rs[3][5] = {{1, 2, 1.5, 3, 2.5}, {2, 2, 2, 0.5, 0.5}, {1, 1, 4, 4, 1}};
  static const double As[3][5] = {{-1, -0.5, 0, 0.5, 1}, {0, 0.7, 1.4, 2.5, 3}, {-3, -2, 0.1, 0.2, 3}};
  const int n = 5;
  std::shared_ptr<ScanPointWeighting> spw;
  if (kind == 0) spw = std::make_shared<EvenSPW>(); else if (kind == 1) spw = std::make_shared<AngleHistogramReciprocalSPW>(); else spw = std::make_shared<VinySlamSPW>();
  auto oope = std::make_shared<TableOOPE>();
  auto &raw = *new LaserScan2D();
  for (int i = 0; i < n; ++i) raw.points().push_back(ScanPoint2D::make_polar(Rs[layout][i], As[layout][i], true));
  auto &sw = *new WeightedMeanPointProbabilitySPE(oope, spw); ScanProbabilityEstimator &spe = sw;
  auto &map = bounded_map(20, 20, 1);
  RobotPose pose{verif_grid("x", -2, 2, Q), verif_grid("y", -2, 2, Q), 0.5};
  if (verif_choose("before", 2)) { LaserScan2D &o = *new LaserScan2D(); for (int i = 0; i < 3; ++i) o.points().push_back(ScanPoint2D::make_polar(1 + i * i, 0.4 * i, true)); spe.filter_scan(o, pose, map); }
  auto scan = spe.filter_scan(raw, pose, map);
  verif_check((int)scan.points().size() == n, "a usable point is dropped");
  for (int i = 0; i < n; ++i) oope->p.push_back(probability());
  double r = spe.estimate_scan_probability(scan, pose, map);
  std::vector<double> w; double total = 0;
  AngleHistogram &h = *new AngleHistogram(20); if (kind == 1) h.reset(raw);
  for (int i = 0; i < n; ++i) {
    double a = As[layout][i], c = std::abs(std::cos(a));
    double v = kind == 0 ? 1 : kind == 1 ? 1.0 / h.value(raw.points(), i) : (c > 0.9 ? 3 : c > 0.8 ? 2 : std::abs(std::sin(a)) + c) * std::sqrt(Rs[layout][i]);
    w.push_back(v); total += v;
  }
  mean(r, oope->p, w, total);
}
// no points at all
VERIF_ENTRY(c15_empty) {
  int kind = verif_choose("weighting", 3), dropped = verif_choose("dropped", 2);
  std::shared_ptr<ScanPointWeighting> spw;
  if (kind == 0) spw = std::make_shared<EvenSPW>(); else if (kind == 1) spw = std::make_shared<AngleHistogramReciprocalSPW>(); else spw = std::make_shared<VinySlamSPW>();
  auto oope = std::make_shared<TableOOPE>();
  auto &raw = *new LaserScan2D();
  if (dropped) raw.points().push_back(ScanPoint2D::make_polar(verif_grid("r", 0, 3, Q), 0.5, false));
  auto &sw = *new WeightedMeanPointProbabilitySPE(oope, spw); ScanProbabilityEstimator &spe = sw;
  auto &map = bounded_map(20, 20, 1);
  RobotPose pose{0, 0, 0};
  auto scan = spe.filter_scan(raw, pose, map);
  verif_check(scan.points().empty(), "an unusable point is kept");
  verif_check(is_unknown(spe.estimate_scan_probability(scan, pose, map)), "no point has weight but the likelihood is known");
}
VERIF_ENTRY(c15_unknown) { // known likelihoods are not unknown
  double v = verif_real("v", -10, 10);
  verif_check(!is_unknown(v), "a number is taken for the unknown likelihood");
  verif_check(is_unknown(ScanProbabilityEstimator::unknown_probability()), "the unknown likelihood is not recognised");
}
// the filter
VERIF_ENTRY(c15_filter) {
  const int n = 3 + T;
  static const double Sc[] = {0.5, 0.1, 1}, Th[] = {0, 0.75, -2.5};
  double s = Sc[verif_choose("scale", T ? 3 : 2)], th = Th[verif_choose("theta", T ? 3 : 2)];
  int w = 5, h = 4, skip = verif_choose("skip", 4), limited = T || skip == 0 || skip == 3 ? verif_choose("limited", 2) : 0;
  double max = limited ? verif_grid("max", Q, 4, Q) : -1;
  auto oope = std::make_shared<TableOOPE>(); auto spw = std::make_shared<TableSPW>();
  auto &sw = *new WeightedMeanPointProbabilitySPE(oope, spw, skip, max); ScanProbabilityEstimator &spe = sw;
  auto &map = bounded_map(w, h, s);
  RobotPose pose{verif_grid("x", -4, 4, Q), verif_grid("y", -4, 4, Q), th};
  auto &raw = *new LaserScan2D();
  static const double R[] = {1, 0.5, 2.25, 3};
  int sym = verif_choose("symbolic", n);
  std::vector<int> keep, border; std::vector<double> rs;
  for (int i = 0; i < n; ++i) {
    double a = 0.8 * i - 0.5, r = i == sym ? verif_grid("range", 0, 6, Q) : R[i]; int occ = i == 1 ? verif_choose("occupied", 2) : 1;
    raw.points().push_back(ScanPoint2D::make_polar(r, a, occ)); rs.push_back(r);
    double wx = pose.x + r * std::cos(th + a), wy = pose.y + r * std::sin(th + a), e = 1e-6;
    double l = -(w / 2) * s, rt = (w - w / 2) * s, b = -(h / 2) * s, t = (h - h / 2) * s;
    int inside = vand(vand(wx >= l, wx < rt), vand(wy >= b, wy < t));
    border.push_back(vor(vor(vnear(wx, l, e), vnear(wx, rt, e)), vor(vnear(wy, b, e), vnear(wy, t, e)), limited ? vnear(r, max, e) : 0));
    keep.push_back(vand(occ, inside, limited ? r <= max : 1, skip ? i % skip == 0 : 1));
  }
  auto scan = spe.filter_scan(raw, pose, map);
  const auto &pts = scan.points();
  verif_check(vand(spw->resets == 1, spw->seen == pts.size()), "the weights are not those of the filtered scan");
  size_t at = 0;
  for (int i = 0; i < n; ++i) {
    int kept = at < pts.size() && pts[at].angle() == raw.points()[i].angle();
    if (kept) { verif_check(vand(pts[at].range() == rs[i], pts[at].is_occupied()), "a kept point is changed"); ++at; }
    verif_check(vor(kept, border[i], keep[i] ^ 1), "a usable point is dropped");
    verif_check(vor(!kept, border[i], keep[i]), "an unusable point is kept");
  }
  verif_check(at == pts.size(), "the filtered scan has other points");
  verif_check((int)raw.points().size() == n, "the scan itself is changed");
}
VERIF_ENTRY(c15_many) { // long scans
  const int n = 300;
  auto oope = std::make_shared<TableOOPE>(); auto spw = std::make_shared<TableSPW>();
  auto &scan = *new LaserScan2D(); double total = 0;
  for (int i = 0; i < n; ++i) {
    scan.points().push_back(ScanPoint2D::make_polar(1 + 0.01 * i, 0.02 * i, true));
    oope->p.push_back(i == 290 ? probability() : i % 2 ? 0.25 : 0.75); spw->w.push_back(i == 7 ? verif_grid("w", 0, 4, Q) : 1); total += spw->w[i];
  }
  auto &spe = *new WeightedMeanPointProbabilitySPE(oope, spw);
  double r = static_cast<ScanProbabilityEstimator &>(spe).estimate_scan_probability(scan, RobotPose{0, 0, 0}, bounded_map(3, 3, 1));
  verif_check((int)oope->log.size() == n, "not every point is evaluated once");
  mean(r, oope->p, spw->w, total);
}
VERIF_ENTRY(c15_filter_many) { // long scans, great strides
  const int n = 700; static const int Skip[] = {0, 1, 7, 255, 256, 260, 699};
  int skip = Skip[verif_choose("skip", 7)], out = verif_choose("out", 2) ? 520 : 260;
  auto oope = std::make_shared<TableOOPE>(); auto spw = std::make_shared<TableSPW>();
  double max = verif_grid("max", 2, 4, Q);
  auto &sw = *new WeightedMeanPointProbabilitySPE(oope, spw, skip, max); ScanProbabilityEstimator &spe = sw;
  auto &map = bounded_map(20, 20, 1);
  auto &raw = *new LaserScan2D();
  for (int i = 0; i < n; ++i) raw.points().push_back(ScanPoint2D::make_polar(i == out ? 3 : 1 + 0.001 * i, 0.01 * i, i % 5 != 4));
  auto scan = spe.filter_scan(raw, RobotPose{0.5, 0.5, 0.25}, map);
  const auto &pts = scan.points(); size_t at = 0; int ok = 1, edge = 0;
  for (int i = 0; i < n; ++i) {
    int kept = at < pts.size() && pts[at].angle() == raw.points()[i].angle();
    if (kept) ++at;
    int keep = i % 5 != 4 && (!skip || i % skip == 0);
    if (i == out) { edge = max == 3; keep = keep && verif_fork(3 <= max); if (edge) continue; }
    ok &= kept == keep;
  }
  verif_check(ok, "not exactly the usable points are kept");
  verif_check(at == pts.size(), "the filtered scan has other points");
}
