// C16: estimators of the likelihood of an obstacle depend on the map and the observation alone.
#include "verif.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/maps/plain_grid_map.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "slams/gmapping/gmapping_occupancy_observation_pe.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 16;
typedef OccupancyObservationProbabilityEstimator PE;
typedef RegularSquaresGrid::Coord Coord;
typedef AreaOccupancyObservation AOO;
enum Kind { Hit, Max, Mean, Overlap };
static std::shared_ptr<PE> make(int kind, int oie) {
  std::shared_ptr<ObservationImpactEstimator> e;
  if (oie) e = std::make_shared<OccupancyOIE>(); else e = std::make_shared<DiscrepancyOIE>();
  switch (kind) {
  case Hit: return std::make_shared<ObstacleBasedOccupancyObservationPE>(e);
  case Max: return std::make_shared<MaxOccupancyObservationPE>(e);
  case Mean: return std::make_shared<MeanOccupancyObservationPE>(e);
  default: return std::make_shared<OverlapWeightedOccupancyObservationPE>(e);
  }
}
static double absd(double v) { return v < 0 ? -v : v; }
static int fl(double v) { return (int)std::floor(v); }
static double value() { return verif_grid("cell", 0, 1, 1.0 / 64); }
// cells [-N, N] x [-N, N] hold arbitrary values
static const int N = 1;
struct World { UnboundedPlainGridMap *map; double v[2 * N + 1][2 * N + 1]; double s; };
static World world(double s) {
  World w; w.s = s; w.map = new UnboundedPlainGridMap(std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{2 * N + 1, 2 * N + 1, s});
  for (int y = -N; y <= N; ++y) for (int x = -N; x <= N; ++x) {
    w.v[y + N][x + N] = value();
    w.map->update({x, y}, AOO{true, Occupancy{w.v[y + N][x + N], 1}, {0, 0}, 1});
  }
  return w;
}
static double impact(const World &w, int x, int y, int oie, const AOO &a) {
  double v = w.v[y + N][x + N];
  return oie ? v : 1 - absd(v - a.occupancy.prob_occ);
}
static void check(int kind, int oie, const World &w, const AOO &aoo, const LightWeightRectangle &area, double r) {
  int l = verif_pick(fl(area.left() / w.s)), rt = verif_pick(fl(area.right() / w.s)), b = verif_pick(fl(area.bot() / w.s)), t = verif_pick(fl(area.top() / w.s));
  verif_check(vand(r >= -1e-9, r <= 1 + 1e-9), "not a probability");
  if (kind == Hit) {
    int x = verif_pick(fl(aoo.obstacle.x / w.s)), y = verif_pick(fl(aoo.obstacle.y / w.s));
    verif_check(vnear(r, impact(w, x, y, oie, aoo), 1e-9), "not the likelihood of the cell hit");
    return;
  }
  double lo = 2, hi = -1, sum = 0; int n = 0;
  for (int y = b; y <= t; ++y) for (int x = l; x <= rt; ++x) {
    double p = impact(w, x, y, oie, aoo);
    lo = p < lo ? p : lo; hi = p > hi ? p : hi; sum += p; ++n;
  }
  if (kind == Max) verif_check(vnear(r, hi, 1e-9), "not the highest likelihood in the area");
  if (kind == Mean) verif_check(vnear(r, sum / n, 1e-9), "not the average likelihood in the area");
  if (kind == Overlap) verif_check(vand(r >= lo - 1e-6, r <= hi + 1e-6), "out of the range of likelihoods in the area");
}
static AOO obs(double x, double y, int oie) { return AOO{true, Occupancy{oie ? 1 : verif_grid("occ", 0, 1, Q), 1}, {x, y}, 1}; }
static const double Sc[] = {0.5, 1, 0.1};
// any area and cells
static void any(int kind) {
  int oie = verif_choose("impact", 2), wide = T ? 2 : verif_choose("wide", 2);
  double s = Sc[verif_choose("scale", T ? 3 : 2)];
  auto w = world(s);
  double x = verif_grid("x", -s, 2 * s - Q, Q), y = verif_grid("y", -s, 2 * s - Q, Q);
  double hw = wide ? verif_grid("hw", Q, s, Q) : Q, hh = wide == 1 ? Q : verif_grid("hh", Q, s, Q);
  verif_assume(vand(vand(x - hw >= -s, x + hw <= 2 * s - Q), vand(y - hh >= -s, y + hh <= 2 * s - Q)));
  if (kind == Hit) hw = hh = 0;
  auto aoo = obs(x, y, oie);
  LightWeightRectangle area{y - hh, y + hh, x - hw, x + hw};
  double r = make(kind, oie)->probability(aoo, area, *w.map);
  check(kind, oie, w, aoo, area, r);
}
VERIF_ENTRY(c16_hit) { any(Hit); }
VERIF_ENTRY(c16_max) { any(Max); }
VERIF_ENTRY(c16_mean) { any(Mean); }
VERIF_ENTRY(c16_point) { // an area without extent
  int kind = verif_choose("kind", 4), oie = verif_choose("impact", 2);
  double s = Sc[verif_choose("scale", 2)];
  auto w = world(s);
  double x = verif_grid("x", -s, 2 * s - Q, Q), y = verif_grid("y", -s, 2 * s - Q, Q);
  auto aoo = obs(x, y, oie);
  LightWeightRectangle area{y, y, x, x};
  int cx = verif_pick(fl(x / s)), cy = verif_pick(fl(y / s));
  double r = make(kind, oie)->probability(aoo, area, *w.map);
  verif_check(vnear(r, impact(w, cx, cy, oie, aoo), 1e-9), "the likelihood of a point is not the one of its cell");
}
// the overlap weights
VERIF_ENTRY(c16_overlap) {
  static const double A[][4] = {{-0.25, 0.25, -0.25, 0.5}, {-0.9, 1.9, -0.5, 0.3}, {0.125, 0.75, 0.25, 0.5}, {-1, 1.5, 0.5, 1.5}, {0, 1, 0, 1}, {-0.6, 1.3, -0.8, 1.7}, {0, 0.5, -0.75, 1.9}};
  int oie = verif_choose("impact", 2);
  double s = Sc[verif_choose("scale", 3)];
  auto &a = A[verif_choose("area", 7)];
  auto w = world(s);
  LightWeightRectangle area{a[0] * s, a[1] * s, a[2] * s, a[3] * s};
  auto aoo = obs(0.1 * s, 0.1 * s, oie);
  double r = make(Overlap, oie)->probability(aoo, area, *w.map), sum = 0, total = 0;
  for (int y = -N; y <= N; ++y) for (int x = -N; x <= N; ++x) {
    double ow = std::min((x + 1) * s, area.right()) - std::max(x * s, area.left()), oh = std::min((y + 1) * s, area.top()) - std::max(y * s, area.bot());
    if (ow <= 0 || oh <= 0) continue;
    sum += ow * oh * impact(w, x, y, oie, aoo); total += ow * oh;
  }
  verif_check(vnear(r, sum / total, 1e-7), "not the mean weighted by the overlap");
  check(Overlap, oie, w, aoo, area, r);
}
VERIF_ENTRY(c16_overlap_any) { // any place of the area
  int oie = T ? verif_choose("impact", 2) : 1, hor = verif_choose("hor", 2);
  double s = 1;
  auto w = world(s);
  double x = hor ? verif_grid("x", -0.75, 1.75, Q) : 0.3, y = hor ? 0.8 : verif_grid("y", -0.75, 1.75, Q);
  auto aoo = obs(x, y, oie);
  LightWeightRectangle area{y - 0.25, y + 0.1875, x - 0.25, x + 0.125};
  check(Overlap, oie, w, aoo, area, make(Overlap, oie)->probability(aoo, area, *w.map));
}
// earlier evaluations do not matter
VERIF_ENTRY(c16_history) {
  int kind = verif_choose("kind", 4), oie = verif_choose("impact", 2), what = verif_choose("what", 3);
  double s = 0.5;
  auto w = world(s);
  auto e = make(kind, oie);
  double x = verif_grid("x", 0, s - Q, Q), y = verif_grid("y", 0, s - Q, Q);
  auto aoo = obs(x, y, oie);
  LightWeightRectangle area{y - 0.25, y + 0.25, x - 0.125, x + 0.125};
  if (kind == Overlap) { aoo.obstacle = {0.25, 0.125}; area = LightWeightRectangle{-0.125, 0.25, 0.125, 0.625}; }
  double sx = aoo.obstacle.x, sy = aoo.obstacle.y;
  auto first = aoo; auto farea = area; const UnboundedPlainGridMap *fmap = w.map;
  if (what == 0) fmap = world(s).map; // another map
  if (what == 1) { first.occupancy.prob_occ = 0.25; first.obstacle = {0.75, -0.25}; farea = LightWeightRectangle{-0.375, -0.125, 0.625, 0.875}; } // another observation
  double r0 = e->probability(first, farea, *fmap);
  if (what == 2) { // the map has changed
    w.v[N][N] = value(); w.map->update({0, 0}, AOO{true, Occupancy{w.v[N][N], 1}, {0, 0}, 1});
  }
  double r = e->probability(aoo, area, *w.map);
  check(kind, oie, w, aoo, area, r);
  double f = make(kind, oie)->probability(aoo, area, *w.map);
  verif_check(r == f, "an earlier evaluation changes the likelihood");
  verif_check(aoo.obstacle.x == sx && aoo.obstacle.y == sy, "the observation is changed");
  verif_observe_d("r", r0);
}
// the estimator of GMapping
struct GWorld { UnboundedPlainGridMap *map; };
static UnboundedPlainGridMap &gmap(int symbolic) {
  auto &m = *new UnboundedPlainGridMap(std::make_shared<GmappingBaseCell>(), GridMapParams{5, 5, 1});
  static const double O[][3] = {{0, 0, 0.9}, {1, 0, 0.7}, {-1, -1, 0.3}, {0, 1, 1}};
  for (int i = 0; i < 4; ++i) {
    double x = O[i][0] + 0.5, y = O[i][1] + 0.25;
    if (i == symbolic) { x = O[i][0] + verif_grid("ox", 0, 1 - Q, Q); y = O[i][1] + verif_grid("oy", 0, 1 - Q, Q); }
    m.update({(int)O[i][0], (int)O[i][1]}, AOO{true, Occupancy{O[i][2], 1}, {x, y}, 1});
  }
  return m;
}
static double gexpect(const GridMap &m, const AOO &a, double th, int win) {
  double best = 0; int cx = verif_pick(fl(a.obstacle.x)), cy = verif_pick(fl(a.obstacle.y));
  for (int y = cy - win; y <= cy + win; ++y) for (int x = cx - win; x <= cx + win; ++x) {
    const auto &c = m[Coord{x, y}];
    if (double(c) < th) continue;
    double p = 1 - c.discrepancy(a); best = p > best ? p : best;
  }
  return best;
}
VERIF_ENTRY(c16_gmapping) {
  static const double Th[] = {0.5, 0.1, 0.8};
  double th = Th[verif_choose("fullness", 3)]; int win = verif_choose("window", 3), sym = verif_choose("symbolic", 5) - 1;
  auto &m = gmap(sym);
  AOO a{true, Occupancy{1, 1}, {0.5, 0.5}, 1};
  if (sym < 0) a.obstacle = {verif_grid("x", -1, 2 - Q, Q), verif_grid("y", -1, 2 - Q, Q)};
  GmappingOccupancyObservationPE e(th, win);
  double r = e.probability(a, LightWeightRectangle{0, 0, 0, 0}, m);
  verif_check(vand(r >= -1e-9, r <= 1 + 1e-9), "not a probability");
  verif_check(vnear(r, gexpect(m, a, th, win), 1e-9), "not the best likelihood of the filled cells around the obstacle");
}
VERIF_ENTRY(c16_gmapping_history) {
  int what = verif_choose("what", 4), win = verif_choose("window", 2); double th = 0.5;
  auto &m = gmap(-1);
  GmappingOccupancyObservationPE e(th, win);
  AOO a{true, Occupancy{1, 1}, {verif_grid("x", 0, 1 - Q, Q), verif_grid("y", 0, 1 - Q, Q)}, 1}, first = a;
  LightWeightRectangle none{0, 0, 0, 0};
  if (what == 0) first.obstacle = {verif_grid("fx", 0, 1 - Q, Q), verif_grid("fy", 0, 1 - Q, Q)}; // in the same cell
  if (what == 1) first.obstacle = {verif_grid("fx", 1, 2 - Q, Q), verif_grid("fy", 0, 1 - Q, Q)};
  if (what == 2) verif_observe_d("other", e.probability(first, none, gmap(0)));
  else verif_observe_d("first", e.probability(first, none, m));
  if (what == 3) m.update({0, 0}, AOO{true, Occupancy{1, 1}, {verif_grid("ux", 0, 1 - Q, Q), verif_grid("uy", 0, 1 - Q, Q)}, 1});
  double r = e.probability(a, none, m);
  verif_check(vnear(r, gexpect(m, a, th, win), 1e-9), "an earlier evaluation changes the likelihood");
}
VERIF_ENTRY(c16_large) { // many cells
  int kind = verif_choose("kind", 3) + 1, oie = verif_choose("impact", 2); const int M = 20;
  auto &map = *new UnboundedPlainGridMap(std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{M, M, 1});
  double v = value(), lo = 2, hi = -1, sum = 0; static const int At[][2] = {{-10, -10}, {0, 0}, {9, 9}, {3, -4}}; auto &at = At[verif_choose("at", 4)];
  auto aoo = AOO{true, Occupancy{1, 1}, {0.5, 0.5}, 1};
  for (int y = -M / 2; y < M / 2; ++y) for (int x = -M / 2; x < M / 2; ++x) {
    double p = x == at[0] && y == at[1] ? v : 0.25 + (x & 1) * 0.25 + (y & 1) * 0.125;
    map.update({x, y}, AOO{true, Occupancy{p, 1}, {0, 0}, 1});
    lo = p < lo ? p : lo; hi = p > hi ? p : hi; sum += p;
  }
  double h = M / 2 - 0.25, r = make(kind, oie)->probability(aoo, LightWeightRectangle{-h, h, -h, h}, map);
  if (kind == Max) verif_check(vnear(r, hi, 1e-9), "not the highest likelihood in the area");
  if (kind == Mean) verif_check(vnear(r, sum / (M * M), 1e-9), "not the average likelihood in the area");
  if (kind == Overlap) verif_check(vand(r >= lo - 1e-6, r <= hi + 1e-6), "out of the range of likelihoods in the area");
}
