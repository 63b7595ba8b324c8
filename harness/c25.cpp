// C25: configured values reach the components they are documented for.
#include "verif.h"
#include "random_stubs.h"
#include "core/geometry_utils.h"
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/grid_cell.h"
#include "core/maps/grid_map.h"
#include "core/maps/grid_map_scan_adders.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/tbm_grid_cells.h"
#include "core/maps/transferable_belief_model.h"
#include "core/particle_filter.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/states/laser_scan_grid_world.h"
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
#include "core/states/state_data.h"
#include "sm_stubs.h"
#include "stream_stubs.h"
#include "utils/init_slam.h"
#include "slams/gmapping/init_gmapping.h"
#include "slams/credibilist/init_slam.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 64;
// A configuration in which any key may be absent.
struct Cfg : PropertiesProvider {
  struct P { std::string id; int present; double num; std::string text; };
  std::vector<P> ps;
  Cfg &num(const char *id, int present, double v) { ps.push_back({id, present, v, "?"}); return *this; }
  Cfg &text(const char *id, const std::string &v) { ps.push_back({id, 1, -77, v}); return *this; }
  const P *find(const std::string &id) const { for (auto &p : ps) if (p.id == id) return &p; return nullptr; }
  int get_int(const std::string &id, int d) const override { auto p = find(id); return p ? (p->present ? (int)p->num : d) : d; }
  double get_dbl(const std::string &id, double d) const override { auto p = find(id); if (!p) return d; double v = p->num; return p->present ? v : d; }
  str get_str(const std::string &id, const str &d) const override { auto p = find(id); return p ? p->text : d; }
  unsigned get_uint(const std::string &id, unsigned d) const override { auto p = find(id); return p ? (p->present ? (unsigned)(int)p->num : d) : d; }
  bool get_bool(const std::string &id, bool d) const override { auto p = find(id); return p ? (p->present ? p->num != 0 : d) : d; }
  void set_property(const std::string &id, const str &v) override { text(id.c_str(), v); }
};
static int same(double a, double b) { return vor(vnear(a, b, 1e-9), vand(a != a, b != b)); }
static double sel(int c, double a, double b) { return c ? a : b; }
// a key that may be absent: its effective value
static double any(Cfg &c, const char *key, const char *has, const char *val, double lo, double hi, double dflt, double q = Q) {
  int p = verif_bool(has); double v = verif_grid(val, lo, hi, q);
  c.num(key, p, v); return sel(p, v, dflt);
}
// a key with one of a few values or absent (the first of the effective values is the default)
static double one(Cfg &c, const char *key, const char *val, std::vector<double> vs) {
  int i = verif_choose(val, (int)vs.size());
  if (i) c.num(key, 1, vs[i]);
  return vs[i];
}
static Cfg &cfg() { return *new Cfg; }
static std::shared_ptr<GridCell> plain_cell() { return std::make_shared<GridCell>(Occupancy{0.5, 1}); }
// ---------------------------------------------------------------- maps
VERIF_ENTRY(c25_map) {
  auto &c = cfg();
  double s = one(c, "slam/map/meters_per_cell", "scale", {0.1, 0.5, 0.05, 1, 0.3});
  double w = any(c, "slam/map/width_in_meters", "has_w", "w", 1, 40, 10), h = any(c, "slam/map/height_in_meters", "has_h", "h", 1, 40, 10);
  auto p = init_grid_map_params(c);
  verif_check(p.meters_per_cell == s, "the size of a cell");
  verif_check(vand(p.width_cells * s >= w - 1e-9, (p.width_cells - 1) * s < w + 1e-9), "the width of the map");
  verif_check(vand(p.height_cells * s >= h - 1e-9, (p.height_cells - 1) * s < h + 1e-9), "the height of the map");
}
static const char *MT[] = {"plain", "unbounded_plain", "lazy_tiled", "unbounded_lazy_tiled"};
static const char *AT[] = {"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"};
static int multi_kind(GridMap *m) {
  if (dynamic_cast<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap> *>(m)) return 3;
  if (dynamic_cast<M3RSMRescalableGridMap<LazyTiledGridMap> *>(m)) return 2;
  if (dynamic_cast<M3RSMRescalableGridMap<UnboundedPlainGridMap> *>(m)) return 1;
  return dynamic_cast<M3RSMRescalableGridMap<PlainGridMap> *>(m) ? 0 : -1;
}
static int map_kind(GridMap *m) {
  if (dynamic_cast<UnboundedLazyTiledGridMap *>(m)) return 3;
  if (dynamic_cast<LazyTiledGridMap *>(m)) return 2;
  if (dynamic_cast<UnboundedPlainGridMap *>(m)) return 1;
  return dynamic_cast<PlainGridMap *>(m) ? 0 : -1;
}
static std::shared_ptr<GridCell> area_cell(int k) {
  if (k == 0) return std::make_shared<TbmOccConsistentCell>();
  if (k == 1) return std::make_shared<TbmUnknownEvenOccCell>();
  if (k == 2) return std::make_shared<AffineQualityMergeCell>();
  return std::make_shared<MeanProbabilityCell>();
}
// the same state after the same observations
static void same_cell(std::shared_ptr<GridCell> a, std::shared_ptr<GridCell> b) {
  for (int i = 0; i < 4; ++i) {
    auto x = a->occupancy(), y = b->occupancy();
    verif_check(vand(x.prob_occ == y.prob_occ, x.estimation_quality == y.estimation_quality), "another cell model");
    AreaOccupancyObservation o{i != 1, {i == 0 ? 0.75 : i == 1 ? 0.25 : 0.875, i == 2 ? 0.5 : 1}, Point2D{0.5, 0.5}, 0.5};
    *a += o; *b += o;
  }
}
VERIF_ENTRY(c25_map_kind) {
  auto &c = cfg();
  int k = verif_choose("map", 4), a = verif_choose("area", 4), wd = verif_choose("wide", 2), mr = verif_choose("multires", 3);
  c.text("slam/mapping/grid/type", MT[k]).text("slam/mapping/grid/area/type", AT[a]);
  c.num("slam/map/width_in_meters", 1, wd ? 3 : 2).num("slam/map/height_in_meters", 1, wd ? 1 : 2).num("slam/map/meters_per_cell", 1, 0.5);
  if (mr) c.text("slam/scmtch/type", mr == 1 ? "BF_M3RSM" : "HC");
  auto m = init_grid_map(c);
  auto *keep = new std::shared_ptr<GridMap>(m); (void)keep;
  verif_check((mr == 1 ? multi_kind(m.get()) : map_kind(m.get())) == k, "another kind of map");
  verif_check(m->width() == (wd ? 6 : 4) && m->height() == (wd ? 2 : 4) && m->scale() == 0.5, "the size of the map");
  m->rescale(1);
  verif_check(m->scale() == (mr == 1 ? 1 : 0.5), "a multi-resolution map is needed by one matcher alone");
  m->rescale(0.5);
  verif_check(m->has_cell({100, 3}) == (k % 2 == 1), "the bounds of the map");
  same_cell(m->new_cell(), area_cell(a));
  int x = (int)verif_int("x", -2, 1), y = (int)verif_int("y", -1, 0);
  auto ref = area_cell(a);
  AreaOccupancyObservation o{true, {0.75, 1}, Point2D{0.1, 0.1}, 0.5};
  m->update({x, y}, o); *ref += o;
  auto &got = (*m)[{x, y}];
  verif_check(vand(got.occupancy().prob_occ == ref->occupancy().prob_occ, got.occupancy().estimation_quality == ref->occupancy().estimation_quality), "cells of another model");
}
// ---------------------------------------------------------------- occupancy estimators, scan adders
static const Segment2D Bm[] = {{{-1, 0.25}, {0.5, 0.25}}, {{0.25, -2}, {0.75, 2}}, {{-0.5, -0.25}, {0.875, 0.75}}, {{3, 0.5}, {0.75, 0.5}}};
static void same_estimates(CellOccupancyEstimator &a, CellOccupancyEstimator &b) {
  Rectangle r{0, 1, 0, 1};
  for (auto &s : Bm)
    for (int occ = 0; occ < 2; ++occ) {
      auto x = a.estimate_occupancy(s, r, occ), y = b.estimate_occupancy(s, r, occ);
      verif_check(vand(same(x.prob_occ, y.prob_occ), same(x.estimation_quality, y.estimation_quality)), "another estimate of a cell");
    }
}
static std::shared_ptr<CellOccupancyEstimator> ref_coe(int area, Occupancy o, Occupancy e) {
  if (area) return std::make_shared<AreaOccupancyEstimator>(o, e);
  return std::make_shared<ConstOccupancyEstimator>(o, e);
}
VERIF_ENTRY(c25_occ) {
  auto &c = cfg();
  int t = verif_choose("type", 3);
  if (t) c.text("slam/occupancy_estimator/type", t == 1 ? "const" : "area");
  Occupancy o{0, 0}, e{0, 0};
  o.prob_occ = any(c, "slam/occupancy_estimator/base_occupied/prob", "has_op", "op", 0.5, 1, 0.95);
  o.estimation_quality = any(c, "slam/occupancy_estimator/base_occupied/qual", "has_oq", "oq", 0, 1, 1);
  e.prob_occ = any(c, "slam/occupancy_estimator/base_empty/prob", "has_ep", "ep", 0, 0.5, 0.01);
  e.estimation_quality = any(c, "slam/occupancy_estimator/base_empty/qual", "has_eq", "eq", 0, 1, 1);
  same_estimates(*init_occ_estimator(c), *ref_coe(t == 2, o, e));
}
VERIF_ENTRY(c25_pq) {
  auto &c = cfg();
  double q = any(c, "slam/mapping/corrected_pose_quality", "has_c", "c", 0, 1, 1), r = any(c, "slam/mapping/raw_pose_quality", "has_r", "r", 0, 1, 0.5), a, b;
  std::tie(a, b) = init_pose_quality_estimators(c);
  verif_check(vand(a == q, b == r), "the qualities of poses");
}
struct LogMap : PlainGridMap {
  struct U { Coord c; AreaOccupancyObservation o; };
  std::vector<U> log;
  LogMap() : PlainGridMap{plain_cell(), GridMapParams{9, 9, 0.5}} {}
  void update(const Coord &c, const AreaOccupancyObservation &o) override { log.push_back({c, o}); }
};
static void same_log(const std::vector<LogMap::U> &a, const std::vector<LogMap::U> &b) {
  verif_check(a.size() == b.size(), "other cells are updated");
  if (a.size() != b.size()) return;
  for (size_t i = 0; i < a.size(); ++i) {
    auto &x = a[i].o, &y = b[i].o;
    verif_check(vand(a[i].c == b[i].c, x.is_occupied == y.is_occupied, vnear(x.quality, y.quality, 1e-9)), "another update of a cell");
    verif_check(vand(same(x.occupancy.prob_occ, y.occupancy.prob_occ), same(x.occupancy.estimation_quality, y.occupancy.estimation_quality)), "another estimate of a cell");
  }
}
static LaserScan2D wall_scan() {
  LaserScan2D s; s.trig_provider = std::make_shared<RawTrigonometryProvider>();
  static const double R[][2] = {{1.0, 0}, {1.03, 0.25}, {1.14, 0.5}, {1.9, 1.2}, {1.7, 1.5}};
  for (auto &r : R) s.points().push_back(ScanPoint2D::make_polar(r[0], r[1], r[1] != 0.5));
  return s;
}
static double adder_cfg(Cfg &c, std::shared_ptr<WallDistanceBlurringScanAdder> &ref, bool given_coe = false) {
  int t = given_coe ? 1 : verif_choose("estimator", 2);
  if (t) c.text("slam/occupancy_estimator/type", "area").num("slam/occupancy_estimator/base_occupied/prob", 1, 0.875).num("slam/occupancy_estimator/base_empty/qual", 1, 0.25);
  int q = verif_choose("omqe", 3);
  if (q) c.text("slam/mapping/observation_quality_estimator/type", q == 1 ? "idle" : "ahr");
  double blur = one(c, "slam/mapping/blur", "blur", {0, 0.8, 1.5, -0.5});
  double inf = std::numeric_limits<double>::infinity(), mx = one(c, "slam/mapping/max_range", "max_range", {inf, 1.1, 1.75, 0.5});
  auto b = WallDistanceBlurringScanAdder::builder();
  std::shared_ptr<ObservationMappingQualityEstimator> om;
  if (q == 2) om = std::make_shared<AngleHistogramResiprocalOMQE>(); else om = std::make_shared<IdleOMQE>();
  b.set_occupancy_estimator(ref_coe(t, Occupancy{t ? 0.875 : 0.95, 1}, Occupancy{0.01, t ? 0.25 : 1}));
  b.set_observation_quality_estimator(om); b.set_blur_distance(blur);
  if (mx < inf) b.set_max_usable_range(mx);
  ref = b.build();
  return mx;
}
VERIF_ENTRY(c25_adder) {
  auto &c = cfg();
  std::shared_ptr<WallDistanceBlurringScanAdder> ref;
  adder_cfg(c, ref);
  auto got = init_scan_adder(c);
  auto &m = *new LogMap, &n = *new LogMap;
  auto s = wall_scan();
  double q = verif_grid("quality", 0, 1, Q);
  got->append_scan(m, RobotPose{0.25, 0.25, 0}, s, q); ref->append_scan(n, RobotPose{0.25, 0.25, 0}, s, q);
  same_log(m.log, n.log);
}
VERIF_ENTRY(c25_range) { // any limit, any end of the beam
  auto &c = cfg();
  double mx = any(c, "slam/mapping/max_range", "has_max", "max", Q, 4, 1e9), r = verif_grid("range", 0.0625, 2, Q);
  auto got = init_scan_adder(c);
  auto &m = *new LogMap;
  LaserScan2D s; s.trig_provider = std::make_shared<RawTrigonometryProvider>(); s.points().push_back(ScanPoint2D::make_polar(r, 0, true));
  got->append_scan(m, RobotPose{0.25, 0.25, 0}, s, 1);
  verif_assume(vnear(r, mx, 1e-6) ^ 1);
  verif_check(viff(m.log.size() > 0, r <= mx), "beams up to the maximum range are used");
}
// ---------------------------------------------------------------- scan likelihood
static std::shared_ptr<ObservationImpactEstimator> ref_oie(int k) { if (k == 2) return std::make_shared<OccupancyOIE>(); return std::make_shared<DiscrepancyOIE>(); }
static std::shared_ptr<OccupancyObservationProbabilityEstimator> ref_oope(int k, int oie) {
  auto e = ref_oie(oie);
  if (k == 2) return std::make_shared<MaxOccupancyObservationPE>(e);
  if (k == 3) return std::make_shared<MeanOccupancyObservationPE>(e);
  if (k == 4) return std::make_shared<OverlapWeightedOccupancyObservationPE>(e);
  return std::make_shared<ObstacleBasedOccupancyObservationPE>(e);
}
static std::shared_ptr<ScanPointWeighting> ref_swp(int k) {
  if (k == 1) return std::make_shared<VinySlamSPW>();
  if (k == 2) return std::make_shared<AngleHistogramReciprocalSPW>();
  return std::make_shared<EvenSPW>();
}
struct SpeCfg { std::shared_ptr<OccupancyObservationProbabilityEstimator> oope; std::shared_ptr<ScanPointWeighting> swp; unsigned skip; double max; };
static SpeCfg spe_cfg(Cfg &c, int oope, int oie, int swp, int skip) {
  static const char *OT[] = {"", "obstacle", "max", "mean", "overlap"}, *IT[] = {"", "discrepancy", "occupancy"}, *WT[] = {"even", "viny", "ahr"};
  c.text("slam/scmtch/spe/type", "wmpp").text("slam/scmtch/spe/wmpp/weighting/type", WT[swp]);
  if (oope) c.text("slam/scmtch/oope/type", OT[oope]);
  if (oie) c.text("slam/scmtch/oie/type", IT[oie]);
  if (skip) c.num("slam/scmtch/spe/wmpp/sp_skip_rate", 1, skip - 1);
  return {ref_oope(oope, oie), ref_swp(swp), skip ? unsigned(skip - 1) : 0, -1};
}
static LaserScan2D five() {
  LaserScan2D s; s.trig_provider = std::make_shared<RawTrigonometryProvider>();
  static const double R[][2] = {{0.5, 0.1}, {0.75, 0.5}, {1.25, 1.6}, {1.75, 0.3}, {1.5, 2.2}};
  for (auto &r : R) s.points().push_back(ScanPoint2D::make_polar(r[0], r[1], true));
  return s;
}
static GridMap &seen_map() {
  auto &m = *new PlainGridMap(std::make_shared<MeanProbabilityCell>(), GridMapParams{9, 9, 0.5});
  for (int x = -4; x <= 4; ++x) for (int y = -4; y <= 4; ++y) if ((x * 3 + y * 5) % 4) m.update({x, y}, {true, {((x + 2 * y) & 7) / 8.0, 1}, Point2D{0.5 * x + 0.25, 0.5 * y + 0.25}, 1});
  return m;
}
static void same_spe(ScanProbabilityEstimator &a, ScanProbabilityEstimator &b, int lin) {
  auto &m = seen_map();
  RobotPose p{lin ? verif_grid("px", 0, 0.25, Q) : 0.125, 0.0625, 0};
  auto s = five();
  auto f = a.filter_scan(s, p, m), g = b.filter_scan(s, p, m);
  verif_check(f.points().size() == g.points().size(), "other points are used");
  if (f.points().size() != g.points().size()) return;
  for (size_t i = 0; i < f.points().size(); ++i) verif_check(vand(f.points()[i].range() == g.points()[i].range(), f.points()[i].angle() == g.points()[i].angle()), "other points are used");
  ScanProbabilityEstimator::SPEParams par{LightWeightRectangle{-0.3, 0.3, -0.2, 0.2}, false};
  for (int k = 0; k < 2; ++k) {
    double x = k ? a.estimate_scan_probability(f, p, m, par) : a.estimate_scan_probability(f, p, m, {}), y = k ? b.estimate_scan_probability(g, p, m, par) : b.estimate_scan_probability(g, p, m, {});
    verif_check(vor(vnear(x, y, 1e-9), vand(x != x, y != y)), "another likelihood of the scan");
  }
}
VERIF_ENTRY(c25_spe) {
  auto &c = cfg();
  auto r = spe_cfg(c, verif_choose("oope", 5), verif_choose("oie", 3), verif_choose("weighting", 3), verif_choose("skip", T ? 5 : 4));
  auto got = init_spe(c);
  auto ref = std::make_shared<WeightedMeanPointProbabilitySPE>(r.oope, r.swp, r.skip, r.max);
  same_spe(*got, *ref, 0);
}
VERIF_ENTRY(c25_spe_range) { // any limit of the range
  auto &c = cfg();
  auto r = spe_cfg(c, verif_choose("oope", 2), 0, 0, verif_choose("skip", 3));
  r.max = any(c, "slam/scmtch/spe/wmpp/sp_max_usable_range", "has_max", "max", -1, 4, -1);
  auto got = init_spe(c, r.oope);
  auto ref = std::make_shared<WeightedMeanPointProbabilitySPE>(r.oope, r.swp, r.skip, r.max);
  same_spe(*got, *ref, 0);
}
// ---------------------------------------------------------------- matchers
static double flat(int k, const RobotPose &) { return 0.5; }
static double bumpy(int k, const RobotPose &) { static const double S[] = {0.25, 0.25, 0.5, 0.125, 0.5, 0.25, 0.625, 0.125, 0.75, 0.5, 0.5, 0.5, 0.8125}; return k < 13 ? S[k] : 0.5; }
struct Run { std::vector<Tried> log; double prob; RobotPoseDelta d; };
static Run run(GridScanMatcher &sm, ScoreSPE &spe, const GridMap &m) {
  Run r; spe.log.clear(); spe.filtered = 0;
  TransformedLaserScan s; s.quality = 1; s.scan.trig_provider = std::make_shared<RawTrigonometryProvider>();
  s.scan.points().push_back(ScanPoint2D::make_polar(1, 0, true)); spe.expect = 1;
  r.prob = sm.process_scan(s, RobotPose{0.5, -0.25, 0.125}, m, r.d); r.log = spe.log;
  return r;
}
static void same_run(const Run &a, const Run &b) {
  verif_check(a.log.size() == b.log.size(), "the number of poses tried");
  if (a.log.size() != b.log.size()) return;
  for (size_t i = 0; i < a.log.size(); ++i) verif_check(same_pose(a.log[i].pose, b.log[i].pose), "another pose is tried");
  verif_check(vand(a.prob == b.prob, vnear(a.d.x, b.d.x, 1e-9), vnear(a.d.y, b.d.y, 1e-9), vnear(a.d.theta, b.d.theta, 1e-9)), "another result");
}
static std::shared_ptr<ScoreSPE> spe(int k) { return std::make_shared<ScoreSPE>(k ? bumpy : flat); }
VERIF_ENTRY(c25_mc) {
  auto &c = cfg(); auto s = spe(verif_choose("scores", 2));
  double t = any(c, "slam/scmtch/MC/dispersion/translation", "has_t", "t", 0, 1, 0.2), r = any(c, "slam/scmtch/MC/dispersion/rotation", "has_r", "r", 0, 1, 0.1);
  unsigned failed = (unsigned)one(c, "slam/scmtch/MC/dispersion/failed_attempts_limit", "failed", {20, 3, 6, 200});
  unsigned limit = (unsigned)one(c, "slam/scmtch/MC/attempts_limit", "attempts", {100, 4, 12});
  int has = verif_bool("has_seed"); long seed = verif_int("seed", 0, 1000); c.num("slam/scmtch/MC/seed", has, (double)seed);
  verif_fixed_draws = true; // their dispersions are symbolic
  auto sm = init_monte_carlo_sm(c, s);
  verif_check(verif_seeds.size() > 0, "no generator");
  verif_check(vimp(has, verif_seeds.back() == (unsigned long)seed), "the seed of the generator");
  auto &m = some_map();
  size_t d0 = verif_draws.size();
  auto a = run(*sm, *s, m);
  size_t d1 = verif_draws.size();
  auto &ref = *new MonteCarloScanMatcher(s, 5, t, r, failed, limit);
  auto b = run(ref, *s, m);
  size_t d2 = verif_draws.size();
  verif_check(a.log.size() == b.log.size(), "the number of poses tried");
  verif_check(d1 - d0 == d2 - d1, "the number of variates");
  if (d1 - d0 != d2 - d1) return;
  for (size_t i = 0; i < d1 - d0; ++i) verif_check(vand(verif_draws[d0 + i].a == verif_draws[d1 + i].a, vnear(verif_draws[d0 + i].b, verif_draws[d1 + i].b, 1e-9)), "the dispersion of a variate");
}
VERIF_ENTRY(c25_hc) {
  auto &c = cfg(); auto s = spe(verif_choose("scores", 2));
  double t = any(c, "slam/scmtch/HC/distortion/translation", "has_t", "t", Q, 1, 0.1), r = any(c, "slam/scmtch/HC/distortion/rotation", "has_r", "r", Q, 1, 0.1);
  unsigned failed = (unsigned)one(c, "slam/scmtch/HC/distortion/failed_attempts_limit", "failed", {6, 1, 3, 9});
  auto sm = init_hill_climbing_sm(c, s);
  auto &m = some_map();
  auto &ref = *new HillClimbingScanMatcher(s, failed, t, r);
  same_run(run(*sm, *s, m), run(ref, *s, m));
}
VERIF_ENTRY(c25_bf) { // one dimension is configured arbitrarily, the others are narrow
  auto &c = cfg(); auto s = spe(verif_choose("scores", 2));
  int dim = verif_choose("dimension", 4); // 3: all defaults but wider steps
  double v[3][3]; static const char *D[] = {"x", "y", "t"};
  for (int i = 0; i < 3; ++i) {
    std::string k = std::string("slam/scmtch/BF/") + D[i];
    double l = i == 2 ? 5 * M_PI / 180 : 0.5, st = i == 2 ? M_PI / 180 : 0.1;
    if (dim == 3) { v[i][0] = -l; v[i][1] = l; v[i][2] = i == 2 ? 0.05 : 0.25; c.num((k + "/step").c_str(), 1, v[i][2]); continue; }
    if (dim != i) { v[i][0] = i == 1 ? -0.125 : 0; v[i][1] = 0.25; v[i][2] = 0.125 * (i + 1); c.num((k + "/from").c_str(), 1, v[i][0]).num((k + "/to").c_str(), 1, v[i][1]).num((k + "/step").c_str(), 1, v[i][2]); continue; }
    v[i][0] = one(c, (k + "/from").c_str(), "from", {-l, 0, -l / 2}); v[i][1] = one(c, (k + "/to").c_str(), "to", {l, l / 4, 2 * l}); v[i][2] = one(c, (k + "/step").c_str(), "step", {st, l, 0.75 * st});
  }
  auto sm = init_brute_force_sm(c, s);
  auto &m = some_map();
  auto &ref = *new BruteForceScanMatcher(s, v[0][0], v[0][1], v[0][2], v[1][0], v[1][1], v[1][2], v[2][0], v[2][1], v[2][2]);
  same_run(run(*sm, *s, m), run(ref, *s, m));
}
VERIF_ENTRY(c25_m3rsm) {
  auto &c = cfg();
  auto s = std::make_shared<ScoreSPE>([](int, const RobotPose &p) { return 0.5 + p.x / 8 - p.y / 16 + p.theta / 32; });
  int dim = verif_choose("key", 6); double d = M_PI / 180;
  double lx = 0.25, ly = 0.125, lr = 0.0625, da = 0.0625, dt = 0.125;
  auto set = [&](int i, const char *k, double &v, double dflt, double other) { if (dim == i) v = one(c, k, "value", {dflt, other}); else c.num(k, 1, v); };
  set(0, "slam/scmtch/BF_M3RSM/limit/x_translation", lx, 1, 0.5);
  set(1, "slam/scmtch/BF_M3RSM/limit/y_translation", ly, 1, 0.5);
  set(2, "slam/scmtch/BF_M3RSM/limit/rotation", lr, 5 * d, 0.15);
  set(3, "slam/scmtch/BF_M3RSM/accuracy/rotation", da, 0.1 * d, 0.02);
  set(4, "slam/scmtch/BF_M3RSM/accuracy/translation", dt, 0.05, 0.0625);
  auto sm = init_bf_m3rsm(c, s);
  auto &map = *new M3RSMRescalableGridMap<UnboundedPlainGridMap>(std::make_shared<OccupancyOIE>(), plain_cell(), GridMapParams{8, 8, 0.125});
  auto &ref = *new BruteForceMultiResolutionScanMatcher(s, lx, ly, lr, da, dt);
  same_run(run(*sm, *s, map), run(ref, *s, map));
}
// every type of matcher with the likelihood of the configuration
VERIF_ENTRY(c25_matcher) {
  auto &c = cfg();
  static const char *S[] = {"MC", "HC", "BF", "BF_M3RSM", "idle", "HC_FIXED"};
  int k = verif_choose("matcher", 6), drift = verif_choose("drift", 3);
  c.text("slam/scmtch/type", S[k]);
  if (drift) c.num("slam/scmtch/use_amb_drift_detector", 1, drift - 1);
  auto r = spe_cfg(c, verif_choose("oope", 3), 0, verif_choose("weighting", 2), 0);
  auto sm = init_scan_matcher(c);
  auto p = sm.get();
  verif_check((dynamic_cast<ConnectTheDotsAmbiguousDriftDetector *>(p) != nullptr) == (drift == 2), "the detector of ambiguous drifts");
  if (drift != 2) {
    int got = dynamic_cast<MonteCarloScanMatcher *>(p) ? 0 : dynamic_cast<HillClimbingScanMatcher *>(p) ? 1 : dynamic_cast<BruteForceScanMatcher *>(p) ? 2 :
      dynamic_cast<BruteForceMultiResolutionScanMatcher *>(p) ? 3 : dynamic_cast<NoActionScanMatcher *>(p) ? 4 : dynamic_cast<HillClimbingSMFixed *>(p) ? 5 : -1;
    verif_check(got == k, "another scan matcher");
  }
  auto ref = std::make_shared<WeightedMeanPointProbabilitySPE>(r.oope, r.swp, 0, -1);
  same_spe(*sm->scan_probability_estimator(), *ref, 0);
}
// ---------------------------------------------------------------- GMapping
VERIF_ENTRY(c25_gm_params) {
  auto &c = cfg();
  static const char *K[] = {"sample/xy/mean", "sample/xy/sigma", "sample/theta/mean", "sample/theta/sigma", "sm_delta_lim/xy/min", "sm_delta_lim/xy/max", "sm_delta_lim/theta/min", "sm_delta_lim/theta/max"};
  static const char *H[] = {"h0", "h1", "h2", "h3", "h4", "h5", "h6", "h7"}, *V[] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7"};
  static const double D[] = {0, 0.1, 0, 0.03, 0.6, 0.8, 0.3, 0.4};
  double e[8];
  for (int i = 0; i < 8; ++i) e[i] = any(c, (std::string("slam/particles/") + K[i]).c_str(), H[i], V[i], 0, 1, D[i]);
  auto p = init_gmapping_params(c);
  std::mt19937 g{1};
  size_t d0 = verif_draws.size(); p.pose_guess_rv.sample(g); size_t d1 = verif_draws.size(); p.next_sm_delta_rv.sample(g); size_t d2 = verif_draws.size();
  verif_check(d1 - d0 == 3 && d2 - d1 == 3, "three variates each");
  int xy = 0, th = 0;
  for (size_t i = d0; i < d1; ++i) { xy += vand(verif_draws[i].a == e[0], verif_draws[i].b == e[1]); th += vand(verif_draws[i].a == e[2], verif_draws[i].b == e[3]); }
  verif_check(vand(verif_draws[d0].a == e[0], verif_draws[d0].b == e[1], xy >= 2, th >= 1), "the noise of the pose");
  xy = th = 0;
  for (size_t i = d1; i < d2; ++i) { xy += vand(verif_draws[i].a == e[4], verif_draws[i].b == e[5]); th += vand(verif_draws[i].a == e[6], verif_draws[i].b == e[7]); }
  verif_check(vand(verif_draws[d1].a == e[4], verif_draws[d1].b == e[5], xy >= 2, th >= 1), "the motion needed for matching");
  auto &n = cfg(); int has = verif_bool("has_n"); long v = verif_int("n", 1, 1000); n.num("slam/particles/number", has, (double)v);
  verif_check(init_particles_nm(n) == (unsigned)(has ? v : 30), "the number of particles");
}
VERIF_ENTRY(c25_gm_spe) {
  auto &c = cfg();
  auto r = spe_cfg(c, 0, 0, 0, verif_choose("skip", 3));
  if (verif_choose("custom", 2)) c.text("slam/scmtch/oope/type", "custom");
  double th = any(c, "slam/scmtch/oope/custom/fullness_threshold", "has_th", "th", 0, 1, 0.1);
  unsigned win = (unsigned)one(c, "slam/scmtch/oope/custom/window_size", "window", {1, 0, 2});
  auto got = init_gmapping_prob_estimator(c);
  auto ref = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<GmappingOccupancyObservationPE>(th, win), r.swp, r.skip, -1);
  auto &m = *new PlainGridMap(std::make_shared<GmappingBaseCell>(), GridMapParams{9, 9, 0.5});
  for (int x = -4; x <= 4; ++x) for (int y = -4; y <= 4; ++y) if ((x * 3 + y * 5) % 4) { double p = ((x + 2 * y) & 7) / 8.0; for (int i = 0; i < 4; ++i) m.update({x, y}, {true, {i < 4 * p, 1}, Point2D{0.5 * x + 0.125 * i, 0.5 * y + 0.25}, 1}); }
  RobotPose p{0.125, 0.0625, 0}; auto s = five();
  s.points().pop_back(); s.points().pop_back();
  auto f = got->filter_scan(s, p, m), g = ref->filter_scan(s, p, m);
  verif_check(f.points().size() == g.points().size(), "other points are used");
  double x = got->estimate_scan_probability(f, p, m, {}), y = ref->estimate_scan_probability(g, p, m, {});
  verif_check(vnear(x, y, 1e-9), "another likelihood of the scan");
}
// ---------------------------------------------------------------- whole systems
static void whole(int kind) {
  auto &c = cfg(); int mt = 0;
  std::shared_ptr<WallDistanceBlurringScanAdder> ref;
  spe_cfg(c, 0, 0, 0, 0);
  c.text("slam/mapping/grid/type", MT[verif_choose("map", 4)]).text("slam/mapping/grid/area/type", "mean_probability").text("slam/scmtch/type", (mt = verif_choose("matcher", 3)) ? "HC_FIXED" : "idle");
  c.num("slam/map/width_in_meters", 1, 6).num("slam/map/height_in_meters", 1, 7).num("slam/map/meters_per_cell", 1, 0.5);
  c.num("slam/mapping/blur", 1, 0.5);
  double q = 0.9, r = 0.6;
  if (!kind) q = any(c, "slam/mapping/corrected_pose_quality", "has_c", "c", 0, 1, 1), r = any(c, "slam/mapping/raw_pose_quality", "has_r", "r", 0, 1, 0.5);
  auto w = kind ? init_credibilist_slam(c) : init_1h_slam(c);
  auto *keep = new std::shared_ptr<SingleStateHypothesisLaserScanGridWorld>(w); (void)keep;
  TransformedLaserScan s; s.scan = wall_scan(); s.pose_delta = RobotPoseDelta{mt == 2 ? 0.495 : 0.25, 0.25, 0}; s.quality = 1;
  auto odo = RobotPose{0, 0, 0} + s.pose_delta;
  AreaOccupancyObservation wall{true, Occupancy{1, 1}, Point2D{1.75, 0.25}, 1};
  if (mt == 2) w->map().update({3, 0}, wall); // a small motion leads to a better match
  w->handle_sensor_data(s);
  int corrected = same_pose(w->pose(), odo, 1e-12) ^ 1;
  if (mt != 1) verif_check(corrected == (mt == 2), "the pose is not corrected by the configured matcher");
  verif_check(s.quality == sel(corrected, q, r), "the quality of the scan");
  auto b = WallDistanceBlurringScanAdder::builder();
  b.set_occupancy_estimator(ref_coe(0, Occupancy{0.95, 1}, Occupancy{0.01, 1})); b.set_observation_quality_estimator(std::make_shared<IdleOMQE>()); b.set_blur_distance(0.5);
  std::shared_ptr<GridCell> cell; if (kind) cell = std::make_shared<CredibilistCell>(); else cell = std::make_shared<MeanProbabilityCell>();
  auto &m = *new UnboundedPlainGridMap(cell, GridMapParams{12, 14, 0.5});
  if (mt == 2) m.update({3, 0}, wall);
  b.build()->append_scan(m, w->pose(), wall_scan(), s.quality);
  verif_check(w->map().width() >= 12 && w->map().height() >= 14 && w->map().scale() == 0.5, "the size of the map");
  for (int x = -6; x < 6; ++x)
    for (int y = -7; y < 7; ++y) {
      auto o = w->map()[{x, y}].occupancy(), e = m[{x, y}].occupancy();
      verif_check(vand(same(o.prob_occ, e.prob_occ), same(o.estimation_quality, e.estimation_quality)), "the map of the configured system");
    }
}
VERIF_ENTRY(c25_1h) { whole(0); }
VERIF_ENTRY(c25_credibilist) { whole(1); }
VERIF_ENTRY(c25_gmapping) {
  auto &c = cfg(); verif_fixed_draws = true;
  spe_cfg(c, 0, 0, 0, 0);
  c.num("slam/map/width_in_meters", 1, 6).num("slam/map/height_in_meters", 1, 4).num("slam/map/meters_per_cell", 1, 0.5);
  c.num("slam/mapping/blur", 1, 0.5);
  int n = 1 + verif_choose("particles", 4); c.num("slam/particles/number", 1, n);
  double lo = one(c, "slam/particles/sm_delta_lim/xy/min", "lo", {0.6, 0.125}), lt = one(c, "slam/particles/sm_delta_lim/theta/max", "lt", {0.4, 0.75}), sg = one(c, "slam/particles/sample/xy/sigma", "sg", {0.1, 0.25});
  auto w = init_gmapping(c);
  auto *keep = new std::shared_ptr<Gmapping>(w); (void)keep;
  int seen = 0, other = 0;
  for (auto &d : verif_draws) { seen += vand(d.a == lo, d.b == 0.8); other += vand(d.a == 0.3, d.b == lt); }
  verif_check(vand(seen >= 2 * n, other >= n), "the motion needed for matching");
  verif_check(w->map().width() == 12 && w->map().height() == 8 && w->map().scale() == 0.5, "the size of the map");
  // every particle but the master is disturbed before a scan is matched
  TransformedLaserScan s; s.scan = wall_scan(); s.scan.points().resize(1); s.quality = 1;
  s.pose_delta = RobotPoseDelta{3, 3, 0}; w->handle_sensor_data(s);
  size_t d0 = verif_draws.size();
  s.scan = wall_scan(); s.scan.points().resize(1); s.pose_delta = RobotPoseDelta{-3, -3, 0}; w->handle_sensor_data(s);
  seen = other = 0;
  for (size_t i = d0; i < verif_draws.size(); ++i) { seen += vand(verif_draws[i].a == 0, verif_draws[i].b == sg); other += vand(verif_draws[i].a == 0, verif_draws[i].b == 0); }
  verif_check(vimp(sg != 0, seen == 2 * (n - 1)), "the number of particles and their noise");
}
static const char *NK[] = {"slam/mapping/grid/type", "slam/mapping/grid/area/type", "slam/occupancy_estimator/type", "slam/mapping/observation_quality_estimator/type",
    "slam/scmtch/type", "slam/scmtch/spe/type", "slam/scmtch/spe/wmpp/weighting/type", "slam/scmtch/oope/type", "slam/scmtch/oie/type"};
VERIF_ENTRY(c25_name) { // any name of a component up to 9 characters
  auto &c = cfg();
  static const std::vector<std::string> V[] = {{"plain", "lazy_tiled"}, {}, {"const", "area"}, {"idle", "ahr"}, {"MC", "HC", "BF", "BF_M3RSM", "idle", "HC_FIXED"}, {"wmpp"}, {"even", "viny", "ahr"}, {"obstacle", "max", "mean", "overlap"}, {"occupancy", "discrepancy"}};
  int k = verif_choose("key", 9), n = verif_choose("length", T ? 12 : 10);
  static const char *G[] = {"plain", "mean_probability", "const", "idle", "idle", "wmpp", "even", "obstacle", "occupancy"}, *CN[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10"};
  std::string name;
  for (int i = 0; i < n; ++i) name += (char)verif_int(CN[i], -128, 127);
  for (int i = 0; i < 9; ++i) c.text(NK[i], i == k ? name : std::string(G[i]));
  verif_allow_throw(1);
  if (k < 2) { if (k) init_occupied_area_model(c); else init_grid_map(c, plain_cell()); }
  else if (k == 2) init_occ_estimator(c);
  else if (k == 3) init_omqe(c);
  else init_scan_matcher(c);
  int known = 0;
  for (auto &v : V[k]) if (v.size() == name.size()) { int eq = 1; for (size_t i = 0; i < v.size(); ++i) eq &= v[i] == name[i]; known |= eq; }
  verif_check(known, "a component of an unknown name is made");
}
VERIF_ENTRY(c25_unknown) { // names of components that do not exist end the program
  auto &c = cfg();
  static const char *G[] = {"plain", "mean_probability", "const", "idle", "idle", "wmpp", "even", "obstacle", "occupancy"};
  static const char *N[] = {"Plain", "means", "Area", "", "MCx", "wmp", "ahr ", "maximum", "none", "<undefined>"};
  int k = verif_choose("key", 10), bad = verif_choose("name", 10), gone = verif_choose("absent", 2);
  for (int i = 0; i < 9; ++i) if (i != k) c.text(NK[i], G[i]); else if (!gone) c.text(NK[i], N[bad]);
  int must = k < 9 && (!gone || k < 2 || (4 <= k && k < 7)); // those without a default
  c.num("slam/map/width_in_meters", 1, 2).num("slam/map/height_in_meters", 1, 2).num("slam/map/meters_per_cell", 1, 0.5);
  if (must) verif_allow_throw(1);
  auto w = init_1h_slam(c);
  auto *keep = new std::shared_ptr<SingleStateHypothesisLaserScanGridWorld>(w); (void)keep;
  verif_check(!must, "a component of an unknown name is made");
}
// ---------------------------------------------------------------- providers
static const char *KN[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8"};
static std::string chars(int from, int n, int lo = -128, int hi = 127) { std::string s; for (int i = 0; i < n; ++i) s += (char)verif_int(KN[from + i], lo, hi); return s; }
static int eq(const std::string &a, const std::string &b) { if (a.size() != b.size()) return 0; int r = 1; for (size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
VERIF_ENTRY(c25_keys) { // any keys of up to 3 characters
  auto &p = *new MapPropertiesProvider;
  auto a = chars(0, 1 + verif_choose("la", T ? 3 : 2)), b = chars(3, 1 + verif_choose("lb", T ? 3 : 2)), q = chars(6, 1 + verif_choose("lq", T ? 3 : 2));
  p.set_property(a, "12"); p.set_property(b, "7.5");
  int is = eq(q, b) ? 2 : eq(q, a) ? 1 : 0;
  verif_check(p.has_property(q) == (is > 0), "a key that is set");
  verif_check(p.get_str(q, "none") == (is == 2 ? "7.5" : is ? "12" : "none"), "the text of another key");
  verif_check(p.get_dbl(q, -1.5) == (is == 2 ? 7.5 : is ? 12 : -1.5), "the number of another key");
  if (is == 2) verif_end_path();
  verif_check(p.get_int(q, -4) == (is ? 12 : -4) && p.get_uint(q, 9) == (is ? 12u : 9u), "the number of another key");
  verif_check(p.get_bool(q, false) == (is > 0) && p.get_bool(q, true), "the flag of another key");
}
VERIF_ENTRY(c25_values) { // any number
  auto &p = *new MapPropertiesProvider;
  int n = 1 + verif_choose("digits", T ? 7 : 5), neg = verif_choose("negative", 2), kind = verif_choose("kind", 3), f = kind == 2 ? verif_choose("fraction", 4) : 0;
  auto d = chars(0, n, '0', '9'); long v = 0; double s = 1;
  for (int i = 0; i < n; ++i) v = v * 10 + (d[i] - '0');
  if (f) { if (f > n) verif_end_path(); d.insert(n - f, "."); for (int i = 0; i < f; ++i) s *= 10; }
  if (neg) { if (kind == 1) verif_end_path(); d = "-" + d; v = -v; }
  p.set_property("slam/a", "55"); p.set_property("slam/ab", d); p.set_property("slam/b", "66");
  if (kind == 0) verif_check(p.get_int("slam/ab", 3) == v, "an integer");
  else if (kind == 1) verif_check(p.get_uint("slam/ab", 3) == (unsigned)v, "an unsigned integer");
  else verif_check(vnear(p.get_dbl("slam/ab", 3) * s, (double)v, 1e-6), "a number");
  verif_check(p.get_int("slam/a", 3) == 55 && p.get_int("slam/b", 3) == 66 && p.get_int("slam", 3) == 3 && p.get_int("slam/abc", 3) == 3, "another key");
}
VERIF_ENTRY(c25_flag) { // any text of a flag
  auto &p = *new MapPropertiesProvider;
  auto v = chars(0, verif_choose("length", 6)); int d = verif_choose("default", 2);
  p.set_property("flag", v);
  verif_check(p.get_bool("flag", d) == !(eq(v, "0") || eq(v, "false")), "a flag");
  verif_check(p.get_bool("flags", d) == (bool)d && eq(p.get_str("flag", ""), v), "another flag");
}
// files
static std::map<std::string, std::string> *disk;
static std::string plain_path(const std::string &n) { // without "." parts
  std::string r; size_t i = 0;
  while (i < n.size()) { size_t j = n.find('/', i); if (j == std::string::npos) j = n.size(); auto part = n.substr(i, j - i); if (part != "." && !(part.empty() && i)) { if (i && !(r.size() && r.back() == '/') && (r.size())) r += '/'; r += part.empty() ? "/" : part; } i = j + 1; }
  return r;
}
static bool read(const std::string &n, std::string &t) { auto i = disk->find(plain_path(n)); if (i == disk->end()) return false; t = i->second; return true; }
static FilePropertiesProvider &loaded(const std::string &path) { std::verif_file = read; auto &p = *new FilePropertiesProvider; p.append_file_content(path); return p; }
VERIF_ENTRY(c25_line) { // a file with any line of up to 4 characters
  disk = new std::map<std::string, std::string>;
  int n = verif_choose("length", T ? 6 : 5), last = verif_choose("last", 3);
  auto l = chars(0, n);
  for (char c : l) verif_assume(c != '\n');
  if (n && l[0] == '<') verif_end_path(); // below
  (*disk)["c/f"] = "aa=1\nb=2\n" + l + (last == 0 ? "\nc=3" : last == 1 ? "\n" : "");
  auto &p = loaded("c/f");
  size_t e = 0; while (e < l.size() && l[e] != '=') ++e;
  int set = e < l.size() && l[0] != '#';
  std::string id = set ? l.substr(0, e) : "", v = set ? l.substr(e + 1) : "";
  if (last == 0 && eq(id, "c")) set = 0; // reset by the next line
  auto is = [&](const char *k, const char *def, const char *alt) { auto got = p.get_str(k, def); return eq(got, set && eq(id, k) ? v : std::string(alt)); };
  verif_check(is("aa", "-", "1") && is("b", "-", "2") && is("c", "-", last ? "-" : "3"), "the value of a key");
  verif_check(is("d", "-", "-") && is("", "-", "-"), "a key that is not set");
  if (set) verif_check(eq(p.get_str(id, "-"), v), "the value of the key of the line");
}
VERIF_ENTRY(c25_include) {
  disk = new std::map<std::string, std::string>;
  static const char *Dir[] = {"", "d/", "/d/e/", "../"};
  static const char *Inc[] = {"x.p", "s/x.p", "./x.p"};
  std::string dir = Dir[verif_choose("dir", 4)], inc = Inc[verif_choose("file", 3)];
  int where = verif_choose("where", 3), broken = verif_choose("broken", 3), deep = verif_choose("deep", 2), again = verif_choose("again", 2);
  std::string line = broken == 0 ? "<" + inc + ">\n" : broken == 1 ? "<" + inc + "\n" : "<" + inc + "> \n";
  std::string t = "a=1\n#z=0\nb= 2 \n";
  t.insert(where == 0 ? 0 : where == 1 ? 4 : t.size(), line);
  (*disk)[dir + "m"] = t;
  std::string target = plain_path(dir + inc);
  (*disk)[target] = std::string("k=10\n") + (deep ? "<y.p>" : "#<y.p>");
  std::string sub = target.substr(0, target.rfind('/') == std::string::npos ? 0 : target.rfind('/') + 1);
  (*disk)[sub + "y.p"] = "y=5\n"; (*disk)["other/x.p"] = "k=11\n"; (*disk)["n"] = "w=8";
  auto &p = loaded(dir + "m");
  if (again) p.append_file_content("n");
  verif_check(p.get_str("a", "-") == "1" && p.get_str("b", "-") == " 2 ", "a value of the file");
  verif_check(p.get_int("k", -1) == (broken ? -1 : 10), "a value of the included file");
  verif_check(p.get_int("y", -1) == (!broken && deep ? 5 : -1), "a value of the file included there");
  verif_check(p.get_str("z", "-") == "-" && p.get_str("#z", "-") == "-", "a comment is a value");
  verif_check(p.get_int("w", -1) == (again ? 8 : -1), "a value of another file");
  p.set_property("a", "3"); p.set_property("w", "4");
  verif_check(p.get_int("a", -1) == 3 && p.get_int("w", -1) == 4, "a value set afterwards");
}
VERIF_ENTRY(c25_missing) { // no such file
  disk = new std::map<std::string, std::string>;
  if (verif_choose("included", 2)) (*disk)["m"] = "<gone>\na=1\n";
  auto &p = loaded("m");
  verif_check(p.get_int("a", -1) == (disk->size() ? 1 : -1) && p.available_properties().size() == disk->size(), "a missing file");
}
