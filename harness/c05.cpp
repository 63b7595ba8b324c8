// C05: a scan changes the cells crossed by its beams, in the right way.
#include "verif.h"
#include "core/maps/grid_map_scan_adders.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/const_occupancy_estimator.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 64;
using Coord = RegularSquaresGrid::Coord;
struct Update { Coord c; AreaOccupancyObservation aoo; };
struct RecMap : UnboundedPlainGridMap { // remembers every update
  std::vector<Update> log; size_t resets = 0;
  RecMap(double s) : UnboundedPlainGridMap{std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{20, 20, s}} {}
  void update(const Coord &c, const AreaOccupancyObservation &a) override { log.push_back({Coord{(int)verif_pick(c.x), (int)verif_pick(c.y)}, a}); }
  void reset(const Coord &, const GridCell &) override { ++resets; }
};
struct COE : CellOccupancyEstimator { // tells cells apart
  double occ, free; int bad = 0; RegularSquaresGrid *g = nullptr;
  COE(double o, double f) : CellOccupancyEstimator{Occupancy{o, 1}, Occupancy{f, 1}}, occ{o}, free{f} {}
  Occupancy estimate_occupancy(const Segment2D &, const Rectangle &r, bool is_occ) override {
    double cx = r.left() + r.right();
    return {is_occ ? occ : free, cx};
  }
};
struct OMQE : ObservationMappingQualityEstimator {
  std::vector<double> q; size_t resets = 0, seen = 0;
  void reset(const LaserScan2D &s) override { ++resets; seen = s.points().size(); }
  double quality(const LaserScan2D::Points &p, PointId i) const override { return p.size() == seen && i < q.size() ? q[i] : -1; }
};
static std::shared_ptr<WallDistanceBlurringScanAdder> adder(double blur, double max, std::shared_ptr<CellOccupancyEstimator> e, std::shared_ptr<ObservationMappingQualityEstimator> q) {
  auto b = WallDistanceBlurringScanAdder::builder();
  b.set_blur_distance(blur).set_occupancy_estimator(e).set_observation_quality_estimator(q);
  if (max > 0) b.set_max_usable_range(max);
  return b.build();
}
static const double An[] = {0.3, 2.5, -1.9, 0, -0.7853981633974483, 1.5707963267948966, -2.8, 1.1};
// one beam
static void beam(double s, double px, double py, double a, double r, int occ, double blur, double max) {
  auto coe = std::make_shared<COE>(0.875, 0.125); auto omqe = std::make_shared<OMQE>();
  double oq = 0.5, sq = verif_grid("quality", 0, 1, Q);
  omqe->q = {oq};
  auto &m = *new RecMap(s);
  auto ad = adder(blur, max, coe, omqe);
  LaserScan2D &scan = *new LaserScan2D();
  double th = 0.25;
  scan.points().push_back(ScanPoint2D::make_polar(r, a - th, occ));
  GridMap &res = ad->append_scan(m, RobotPose{px, py, th}, scan, sq, 0);
  verif_check(&res == &m && m.resets == 0, "the map is changed in another way");
  if (max > 0) {
    if (m.log.empty()) { verif_check(r >= max - 1e-6, "a usable beam is ignored"); return; }
    verif_check(r <= max + 1e-6, "a beam beyond the usable range changes the map");
  }
  // what it should do
  Point2D e{px + r * std::cos(a), py + r * std::sin(a)};
  auto &log = m.log; int n = (int)log.size();
  verif_check(n > 0, "a usable beam is ignored");
  if (!n) return;
  // the end point and the start
  const double E = 1e-6 * s;
  auto inside = [&](const Coord &c, double x, double y) { return vand(vand(x >= c.x * s - E, x <= (c.x + 1) * s + E), vand(y >= c.y * s - E, y <= (c.y + 1) * s + E)); };
  int ends = 0, begs = 0, endi = 0;
  double side = 0.5 * s * (std::abs(std::cos(a)) + std::abs(std::sin(a))) + E;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < i; ++j) verif_check(!(log[i].c == log[j].c), "a cell is updated twice by a beam");
    begs = vor(begs, inside(log[i].c, px, py));
    // not far from the beam, not beyond its ends
    double cx = (log[i].c.x + 0.5) * s - px, cy = (log[i].c.y + 0.5) * s - py, ca = std::cos(a), sa = std::sin(a), cr = cx * sa - cy * ca, al = cx * ca + cy * sa;
    verif_check(vand(vand(cr <= side, cr >= -side), vand(al >= -1.01 * s, al <= r + 1.01 * s)), "a cell apart from the beam is changed");
    double q = log[i].aoo.quality;
    verif_check(vnear(q, sq * oq, 1e-9), "an observation is of another quality");
  }
  auto ec = m.world_to_cell(e); ec = Coord{(int)verif_pick(ec.x), (int)verif_pick(ec.y)};
  auto bc = m.world_to_cell(px, py); bc = Coord{(int)verif_pick(bc.x), (int)verif_pick(bc.y)};
  for (int i = 0; i < n; ++i) if (log[i].c == ec) { ++ends; endi = i; }
  if (!ends) { // an end point next to a border
    int near = 0; for (int i = 0; i < n; ++i) near = vor(near, inside(log[i].c, e.x, e.y));
    verif_check(near, "the cell of the end point is not updated"); return;
  }
  verif_check(begs, "the cell of the sensor is not updated");
  verif_check(n >= std::max(std::abs(ec.x - bc.x), std::abs(ec.y - bc.y)) + 1, "a crossed cell is left out");
  for (int i = 0; i < n; ++i) { // 8-connected
    if (i == endi && n == 1) break;
    int nb = 0; for (int j = 0; j < n; ++j) nb += i != j && std::abs(log[i].c.x - log[j].c.x) <= 1 && std::abs(log[i].c.y - log[j].c.y) <= 1;
    verif_check(nb >= (log[i].c == ec || log[i].c == bc ? 1 : 2), "a crossed cell is left out");
  }
  double hole = blur / s; if (blur < 0) hole *= -(r * r);
  if (!occ) hole = 0;
  double od2 = (double)((ec.x - bc.x) * (ec.x - bc.x) + (ec.y - bc.y) * (ec.y - bc.y));
  for (int i = 0; i < n; ++i) {
    auto &u = log[i]; double mid = (2 * u.c.x + 1) * s;
    verif_check(vand(vnear(u.aoo.obstacle.x, e.x, 1e-9), vnear(u.aoo.obstacle.y, e.y, 1e-9)), "an observation has another obstacle");
    if (i == endi) {
      verif_check(u.aoo.is_occupied == (bool)occ, "the end point has not its own occupancy");
      verif_check(vand(u.aoo.occupancy.prob_occ == (occ ? 0.875 : 0.125), vnear(u.aoo.occupancy.estimation_quality, mid, 1e-9)), "the end point is not estimated by its own cell");
      continue;
    }
    double dx = u.c.x - ec.x, dy = u.c.y - ec.y, d2 = dx * dx + dy * dy;
    verif_check(vnear(u.aoo.occupancy.estimation_quality, mid, 1e-9), "a cell is not estimated by its own bounds");
    if (u.aoo.is_occupied) {
      verif_check(occ, "an unoccupied point puts an obstacle into the map");
      verif_check(d2 <= hole * hole + 1e-9, "an obstacle farther than the blur distance from the end point");
      verif_check(vand(u.aoo.occupancy.prob_occ >= -1e-9, u.aoo.occupancy.prob_occ <= 0.875 + 1e-9), "a blurred obstacle is not a weaker one");
    } else {
      verif_check(u.aoo.occupancy.prob_occ == 0.125, "a crossed cell is not estimated as free");
      verif_check(vor(d2 >= hole * hole - 1e-9, hole * hole >= od2 - 1e-9), "a wall is not blurred over the blur distance");
    }
  }
}
VERIF_ENTRY(c05_beam) {
  static const double Sc[] = {1, 0.5, 0.1};
  double s = Sc[verif_choose("scale", T ? 3 : 2)], a = An[verif_choose("angle", T ? 8 : 6)];
  int occ = verif_choose("occupied", 2), at = verif_choose("position", 2);
  static const double Bl[] = {0, 1.5, 8, -0.25};
  double blur = occ ? Bl[verif_choose("blur", 4)] * s : s;
  if (blur < 0) blur /= s * s * s;
  double r = verif_grid("range", 0, (T ? 5 : 3) * s, Q * s);
  beam(s, at ? -1.375 * s : 0.5 * s, at ? 0.8125 * s : 0.5 * s, a, r, occ, blur, -1);
}
VERIF_ENTRY(c05_long) { // long beams, through corners
  static const double D[][2] = {{3, 1}, {-3, 1}, {-1, -3}, {2, -2}, {5, 3}, {7, 2}, {0, 1}};
  auto &d = D[verif_choose("dir", 7)]; int at = verif_choose("position", 2);
  beam(1, 0.5, at ? 0.75 : 0.5, std::atan2(d[1], d[0]), 12 + 5.25 * verif_choose("far", 2) + verif_grid("range", 0, T ? 0.5 : 0.125, 1.0 / 64), 1, verif_choose("blur", 2) ? 2.25 : 0, -1);
}
VERIF_ENTRY(c05_position) { // any position of the sensor
  double a = An[verif_choose("angle", T ? 8 : 4)];
  beam(1, verif_grid("x", T ? -1 : 0, 1, Q), verif_grid("y", T ? -1 : 0, 1, Q), a, T ? 3.25 : 1.75, 1, verif_choose("blur", 2) ? 1.25 : 0, -1);
}
VERIF_ENTRY(c05_blur) { // any blur distance
  double a = An[verif_choose("angle", 3)];
  double blur = verif_grid("blur", -2, 8, Q);
  beam(0.5, 0.25, 0.25, a, 2.3, 1, blur, -1);
}
VERIF_ENTRY(c05_range) { // any limit
  double a = An[verif_choose("angle", 3)], r = verif_grid("range", 0, 3, Q), max = verif_grid("max", Q, 4, Q);
  beam(1, 0.5, 0.25, a, r, verif_choose("occupied", 2), 0.75, max);
}
// which points of a scan are used; the margins
struct Beam { bool occ; double q; Segment2D s; };
static std::vector<Beam> beams;
struct FakeAdder : GridMapScanAdder {
  FakeAdder(std::shared_ptr<ObservationMappingQualityEstimator> q) : GridMapScanAdder{std::make_shared<ConstOccupancyEstimator>(Occupancy{1, 1}, Occupancy{0, 1}), q} {}
  void handle_scan_point(GridMap &, bool occ, double q, const Segment2D &b) const override { beams.push_back({occ, q, b}); }
};
static void used(int n, double margin, const std::vector<double> &rs, const std::vector<int> &occ, const RobotPose &pose, double sq, const std::vector<double> &q) {
  int m = (int)margin, k = std::max(0, n - 2 * m);
  verif_check((int)beams.size() == k, "not exactly the points apart from the margins are used");
  for (int i = 0; i < (int)beams.size() && i < k; ++i) {
    auto &b = beams[i]; int j = m + i; double a = pose.theta + 0.5 * j - 1;
    verif_check(b.occ == (bool)occ[j], "a point changes its occupancy");
    verif_check(vnear(b.q, sq * q[j], 1e-9), "an observation is of another quality");
    verif_check(vand(vnear(b.s.beg().x, pose.x, 1e-9), vnear(b.s.beg().y, pose.y, 1e-9)), "a beam does not start at the sensor");
    verif_check(vand(vnear(b.s.end().x, pose.x + rs[j] * std::cos(a), 1e-7), vnear(b.s.end().y, pose.y + rs[j] * std::sin(a), 1e-7)), "a beam does not end at its point");
  }
}
VERIF_ENTRY(c05_margin) {
  int n = verif_choose("points", 6), m = verif_choose("margin", 4);
  auto omqe = std::make_shared<OMQE>(); FakeAdder &ad = *new FakeAdder(omqe);
  auto &scan = *new LaserScan2D(); std::vector<double> rs; std::vector<int> occ;
  int cached = verif_choose("cached", 2);
  if (cached) { auto tp = std::make_shared<CachedTrigonometryProvider>(); tp->update(-1, 3, 0.5); scan.trig_provider = tp; }
  for (int i = 0; i < n; ++i) {
    rs.push_back(verif_grid("range", 0, 8, Q)); occ.push_back(i % 2); omqe->q.push_back(0.125 * (i + 1));
    scan.points().push_back(ScanPoint2D::make_polar(rs[i], 0.5 * i - 1, occ[i]));
  }
  double sq = verif_grid("quality", 0, 1, Q); RobotPose pose{verif_grid("x", -8, 8, Q), verif_grid("y", -8, 8, Q), verif_choose("theta", 2) ? 0.75 : -2};
  auto &map = *new RecMap(1);
  ad.append_scan(map, pose, scan, sq, m);
  used(n, m, rs, occ, pose, sq, omqe->q);
  if (n > 2 * m) verif_check(omqe->resets == 1 && omqe->seen == (size_t)n, "the quality is not estimated for the scan");
  verif_check((int)scan.points().size() == n, "the scan changes");
}
// the quality estimators of the system
VERIF_ENTRY(c05_quality) {
  const int n = 5; static const double Rs[3][5] = {{1, 2, 1.5, 3, 2.5}, {2, 2, 2, 0.5, 0.5}, {1, 1, 4, 4, 1}};
  int hist = verif_choose("histogram", 2), layout = verif_choose("layout", 3), margin = verif_choose("margin", 2);
  std::shared_ptr<ObservationMappingQualityEstimator> omqe;
  if (hist) omqe = std::make_shared<AngleHistogramResiprocalOMQE>(); else omqe = std::make_shared<IdleOMQE>();
  FakeAdder &ad = *new FakeAdder(omqe); auto &map = *new RecMap(1);
  auto &scan = *new LaserScan2D(); std::vector<double> rs, q; std::vector<int> occ;
  for (int i = 0; i < n; ++i) { rs.push_back(Rs[layout][i]); occ.push_back(1); scan.points().push_back(ScanPoint2D::make_polar(rs[i], 0.5 * i - 1, true)); }
  if (verif_choose("before", 2)) { auto &o = *new LaserScan2D(); for (int i = 0; i < 3; ++i) o.points().push_back(ScanPoint2D::make_polar(1 + i * i, 0.4 * i, true)); ad.append_scan(map, RobotPose{0, 0, 0}, o, 1, 0); beams.clear(); }
  AngleHistogram &h = *new AngleHistogram(20); h.reset(scan);
  for (int i = 0; i < n; ++i) q.push_back(hist ? 1.0 / h.value(scan.points(), i) : 1);
  double sq = verif_grid("quality", 0, 1, Q); RobotPose pose{verif_grid("x", -8, 8, Q), verif_grid("y", -8, 8, Q), 0.5};
  ad.append_scan(map, pose, scan, sq, margin);
  used(n, margin, rs, occ, pose, sq, q);
}
// into real cells: several beams, the last word of each
VERIF_ENTRY(c05_cells) {
  struct Last : GridCell { Last() : GridCell{Occupancy{0.5, 1}} {} std::unique_ptr<GridCell> clone() const override { return std::make_unique<Last>(*this); } };
  auto &m = *new UnboundedPlainGridMap(std::make_shared<Last>(), GridMapParams{4, 4, 1});
  double r0 = verif_grid("r0", 0, 5, Q), r1 = 2.25; int o1 = verif_choose("occupied", 2);
  auto ad = adder(0, -1, std::make_shared<ConstOccupancyEstimator>(Occupancy{0.875, 1}, Occupancy{0.125, 1}), std::make_shared<IdleOMQE>());
  auto &scan = *new LaserScan2D();
  scan.points().push_back(ScanPoint2D::make_polar(r0, 0, true)); scan.points().push_back(ScanPoint2D::make_polar(r1, 3.14159, o1));
  ad->append_scan(m, RobotPose{0.5, 0.5, 0}, scan, 1, 0);
  int e0 = (int)verif_pick((int)std::floor(0.5 + r0));
  for (int y = -2; y <= 2; ++y) for (int x = -4; x <= 7; ++x) {
    double v = m[{x, y}].occupancy().prob_occ, w = 0.5;
    if (y == 0 && x >= 0 && x <= e0) w = x == e0 ? 0.875 : 0.125;
    if (y == 0 && x <= 0 && x >= -2) w = x == -2 && o1 ? 0.875 : 0.125;
    verif_check(v == w, "a cell has not the occupancy its last beam implies");
  }
}
VERIF_ENTRY(c05_many) { // long scans
  const int n = 600; static const int M[] = {0, 1, 130, 270, 299, 300};
  int m = M[verif_choose("margin", 6)];
  auto omqe = std::make_shared<OMQE>(); FakeAdder &ad = *new FakeAdder(omqe);
  auto &scan = *new LaserScan2D(); std::vector<double> rs; std::vector<int> occ;
  for (int i = 0; i < n; ++i) {
    rs.push_back(i == 299 ? verif_grid("range", 0, 8, Q) : 1 + i / 64.0); occ.push_back(i % 3 != 0); omqe->q.push_back(i == 329 ? verif_grid("q", 0, 1, Q) : 0.125 * (i % 8 + 1));
    scan.points().push_back(ScanPoint2D::make_polar(rs[i], 0.5 * i - 1, occ[i]));
  }
  double sq = 0.75; RobotPose pose{1, -2, 0.75};
  ad.append_scan(*new RecMap(1), pose, scan, sq, m);
  used(n, m, rs, occ, pose, sq, omqe->q);
}
// two scans one after another: neither the directions nor the qualities of the first one matter to the second
VERIF_ENTRY(c05_scans) {
  auto coe = std::make_shared<COE>(0.875, 0.125); auto omqe = std::make_shared<AngleHistogramResiprocalOMQE>();
  auto ad = adder(0, -1, coe, omqe);
  auto &m = *new RecMap(1);
  static const double S[][4] = {{0, 1, 2, 3}, {0.5, 0.75, 1, 1.25}, {-1.5, -1.4, 1.5, 1.6}}, H[] = {0, 0.5, -2};
  auto tp = std::make_shared<RawTrigonometryProvider>();
  static const char *N[] = {"a", "b", "c"};
  for (int k = 0; k < 2 + T; ++k) {
    int kind = verif_choose("scan", 3); auto &s = S[kind];
    auto rg = [&](int i) { return kind == 1 ? 2 / std::cos(s[i] - 0.875) : i == 3 ? 2.5 : 2; }; // one of them is a straight wall
    double th = H[verif_choose("heading", 3)], sq = verif_grid(N[k], 0, 1, Q);
    LaserScan2D &scan = *new LaserScan2D(); scan.trig_provider = tp;
    for (int i = 0; i < 4; ++i) scan.points().push_back(ScanPoint2D::make_polar(rg(i), s[i], true));
    AngleHistogram h; h.reset(scan);
    m.log.clear();
    ad->append_scan(m, RobotPose{0.5, 0.5, th}, scan, sq, 0);
    int seen = 0;
    for (int i = 0; i < 4; ++i) {
      double r = rg(i), x = 0.5 + r * std::cos(s[i] + th), y = 0.5 + r * std::sin(s[i] + th), q = sq / h.value(scan.points(), i); int own = 0;
      for (auto &u : m.log)
        if (std::abs(u.aoo.obstacle.x - x) + std::abs(u.aoo.obstacle.y - y) < 1e-6) { ++own; verif_check(vnear(u.aoo.quality, q, 1e-9), "an observation is of another quality"); }
      verif_check(own > 0, "a beam of the scan is not integrated"); seen += own;
    }
    verif_check(seen == (int)m.log.size(), "a beam that is not of the scan is integrated");
  }
  verif_cover("scans");
}
