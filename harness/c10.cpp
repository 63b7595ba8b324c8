// C10: every coarse level of a multi-resolution map bounds the observed cells below it.
#include "verif.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
using Coord = RegularSquaresGrid::Coord;
using Aoo = AreaOccupancyObservation;
static const double S = 0.5; // finest scale
struct Level { // what a map says at one scale
  double scale; std::vector<double> v; std::vector<int> unknown;
};
static std::shared_ptr<ObservationImpactEstimator> oie(int k) { if (k) return std::make_shared<DiscrepancyOIE>(); return std::make_shared<OccupancyOIE>(); }
static double impact(int k, const GridCell &c) { Aoo o{true, {1.0, 1.0}, {0, 0}, 1.0}; return k ? 1.0 - c.discrepancy(o) : c.occupancy().prob_occ; }
template <typename M> static void bounded(M &map, const std::vector<Coord> &touched, int k) {
  map.set_scale_id(map.finest_scale_id());
  std::vector<double> fine; std::vector<Point2D> at; std::vector<int> known;
  for (auto &c : touched) { auto &cell = map[c]; known.push_back(!cell.is_unknown()); fine.push_back(impact(k, cell)); at.push_back(map.cell_to_world(c)); }
  for (unsigned l = 1; l <= map.coarsest_scale_id(); ++l) {
    map.set_scale_id(l);
    for (size_t i = 0; i < touched.size(); ++i) {
      if (!known[i]) continue;
      double coarse = impact(k, map[map.world_to_cell(at[i])]);
      verif_check(coarse >= fine[i] - 1e-9, "a coarse area does not bound an observed cell inside");
    }
  }
  map.set_scale_id(map.finest_scale_id());
}
static const char *PN[] = {"p0", "p1", "p2", "p3", "p4"}, *XN[] = {"x0", "x1", "x2", "x3", "x4"}, *YN[] = {"y0", "y1", "y2", "y3", "y4"};
static double prob(int i) { return verif_grid(PN[i], 0, 1, 1.0 / 64); }
template <typename M> static void step(M &map, const Coord &c, int i, bool resets) {
  int what = resets ? verif_choose("op", 3) : 0;
  if (what == 2) { map.reset(c, GridCell{Occupancy{prob(i), 1}}); return; } // an unknown value
  double p = prob(i);
  if (what == 0) { map.update(c, Aoo{true, {p, 1}, {0, 0}, 1}); return; }
  GridCell cell{Occupancy{0.5, 1}}; cell += Aoo{true, {p, 1}, {0, 0}, 1};
  map.reset(c, cell);
}
template <typename B> static M3RSMRescalableGridMap<B> &make(int w, int h, int k, double proto = 0.5) {
  return *new M3RSMRescalableGridMap<B>(oie(k), std::make_shared<GridCell>(Occupancy{proto, 1}), GridMapParams{w, h, S});
}
// fixed extent: all histories of updates and resets
template <typename B> static void history(int w, int h, int ops) {
  int k = verif_choose("oie", 2);
  auto &map = make<B>(w, h, k);
  std::vector<Coord> touched;
  for (int i = 0; i < ops; ++i) {
    int lo = -(w / 2), hi = w - w / 2 - 1;
    Coord c{int(verif_pick(verif_int(XN[i], lo, hi))), i == 0 ? 0 : -(h / 2) + verif_choose(YN[i], std::min(h, 2))};
    step(map, c, i, true);
    touched.push_back(c);
    bounded(map, touched, k);
  }
}
VERIF_ENTRY(c10_plain) { history<PlainGridMap>(5, 2, 2 + T); }
VERIF_ENTRY(c10_plain_deep) { history<PlainGridMap>(3, 1, 3 + T); }
VERIF_ENTRY(c10_tiled) { history<LazyTiledGridMap>(4, 2, 2); }
// growing extent
template <typename B> static void growth(int ops, int range) {
  int w = 1 + verif_choose("w", 3), h = 1 + verif_choose("h", 2), k = verif_choose("oie", 1 + T);
  auto &map = make<B>(w, h, k, 0.25);
  std::vector<Coord> touched;
  for (int i = 0; i < ops; ++i) {
    Coord c{int(verif_pick(verif_int(XN[i], -range, range))), i < ops - 1 ? 0 : (verif_choose(YN[i], 3) - 1) * range};
    step(map, c, i, false);
    touched.push_back(c);
    bounded(map, touched, k);
  }
}
VERIF_ENTRY(c10_growth) { growth<UnboundedPlainGridMap>(2, 6 + 4 * T); }
VERIF_ENTRY(c10_growth3) { growth<UnboundedPlainGridMap>(3, 4 + T); }
VERIF_ENTRY(c10_growth_tiled) {
  int k = 0;
  auto &map = make<UnboundedLazyTiledGridMap>(2, 2, k, 0.25);
  std::vector<Coord> touched;
  for (int i = 0; i < 2; ++i) {
    Coord c{int(verif_pick(verif_int(XN[i], -1, 1))) * (i ? 200 : 1), 0};
    step(map, c, i, false);
    touched.push_back(c);
    bounded(map, touched, k);
  }
}
// a real cell model: averages that go up and down
VERIF_ENTRY(c10_mean) {
  auto &map = *new M3RSMRescalableGridMap<UnboundedPlainGridMap>(oie(0), std::make_shared<MeanProbabilityCell>(), GridMapParams{2, 1, S});
  std::vector<Coord> touched;
  for (int i = 0; i < 3; ++i) {
    Coord c{int(verif_pick(verif_int(XN[i], -2, 2))), 0};
    map.update(c, Aoo{true, {prob(i), 1}, {0, 0}, 1});
    touched.push_back(c);
    bounded(map, touched, 0);
  }
}
// reading at a requested scale
template <typename M> static std::vector<Level> dump(M &map, int r) {
  std::vector<Level> out;
  for (unsigned l = 0; l <= map.coarsest_scale_id(); ++l) {
    map.set_scale_id(l);
    Level lv; lv.scale = map.scale();
    for (int x = -r; x < r; ++x) for (int y = -1; y < 1; ++y) { auto c = map.world_to_cell((x + 0.5) * S, (y + 0.5) * S); lv.v.push_back(map[c].occupancy().prob_occ); lv.unknown.push_back(map[c].is_unknown()); }
    out.push_back(lv);
  }
  return out;
}
VERIF_ENTRY(c10_rescale) {
  int w = verif_choose("w", 2) ? 5 : 8, R = 9;
  auto &map = make<UnboundedPlainGridMap>(w, 2, 0);
  map.update({0, 0}, Aoo{true, {prob(0), 1}, {0, 0}, 1});
  if (verif_choose("grow", 2)) map.update({8, -1}, Aoo{true, {prob(1), 1}, {0, 0}, 1});
  auto before = dump(map, R);
  map.set_scale_id(0);
  for (size_t i = 1; i < before.size(); ++i) verif_check(before[i].scale > before[i - 1].scale, "a higher level is not coarser");
  for (int i = 0; i < 2; ++i) {
    double t = verif_grid(i ? "t1" : "t0", 0, 64, 1.0 / 64);
    if (verif_choose("inf", 2)) { map.rescale(std::numeric_limits<double>::infinity()); t = 1e9; } else map.rescale(t);
    verif_check(map.scale() >= t, "the selected level is finer than requested");
    size_t l = 0;
    for (; l < before.size(); ++l) { if (before[l].scale == map.scale()) break; verif_check(before[l].scale < t, "a finer level would do"); }
    verif_check(l < before.size() && map.scale_id() == l, "an unknown level is selected");
    for (int x = -R, j = 0; x < R; ++x) for (int y = -1; y < 1; ++y, ++j) { auto c = map.world_to_cell((x + 0.5) * S, (y + 0.5) * S); verif_check(map[c].occupancy().prob_occ == before[l].v[j], "another value is read at a scale"); }
    double vanilla = map.scale();
    { SafeRescalableMap safe{map}; GridMap &m = safe; m.rescale(verif_grid("t2", 0, 64, 1.0 / 64)); }
    verif_check(map.scale() == vanilla, "a temporary scale change is not undone");
  }
  auto after = dump(map, R);
  verif_check(after.size() == before.size(), "changing the scale changes the number of levels");
  for (size_t l = 0; l < before.size(); ++l) for (size_t j = 0; j < before[l].v.size(); ++j) verif_check(vand(after[l].v[j] == before[l].v[j], after[l].unknown[j] == before[l].unknown[j]), "changing the scale changes a stored value");
}
// large extents: many levels
template <typename B> static void large() {
  int k = verif_choose("oie", 2), wide = verif_choose("wide", 2);
  auto &map = make<B>(wide ? 300 : 1, wide ? 1 : 300, k, 0.25);
  static const int At[] = {-150, 149, 0, 128, -1};
  std::vector<Coord> touched;
  for (int i = 0; i < 3; ++i) { int a = At[(verif_choose(XN[i], 2) + 2 * i) % 5]; Coord c = wide ? Coord{a, 0} : Coord{0, a}; step(map, c, i, false); touched.push_back(c); }
  bounded(map, touched, k);
}
VERIF_ENTRY(c10_large) { large<PlainGridMap>(); }
VERIF_ENTRY(c10_large_growth) {
  auto &map = make<UnboundedPlainGridMap>(2, 1, 0, 0.25);
  std::vector<Coord> touched;
  static const int At[] = {0, 200, -300};
  for (int i = 0; i < 3; ++i) { Coord c{At[i], 0}; step(map, c, i, false); touched.push_back(c); }
  bounded(map, touched, 0);
}
