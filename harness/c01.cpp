// C01: unbounded maps remember every update.
#include "verif.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
using Coord = RegularSquaresGrid::Coord;
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
// A cell whose value depends on every operation and on their order.
struct OrderCell : GridCell {
  OrderCell(double v) : GridCell{Occupancy{v, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<OrderCell>(*this); }
  void operator+=(const AreaOccupancyObservation &aoo) override {
    _occupancy.prob_occ = 0.5 * _occupancy.prob_occ + aoo.occupancy.prob_occ;
    on_update();
  }
};
static const double Proto = 0.375;
struct Op { Coord c; bool reset; double v; };
static AreaOccupancyObservation obs(double v) { return AreaOccupancyObservation{true, Occupancy{v, 1}, Point2D{0, 0}, 1}; }
// the value a cell must have after the operations
static double expected(const Op *ops, int n, const Coord &q) {
  double v = Proto;
  for (int i = 0; i < n; ++i) {
    if (!(ops[i].c == q)) continue;
    v = ops[i].reset ? ops[i].v : 0.5 * v + ops[i].v;
  }
  return v;
}
static const char *NX[] = {"x0", "x1", "x2", "x3"}, *NY[] = {"y0", "y1", "y2", "y3"}, *NV[] = {"v0", "v1", "v2", "v3"}, *NR[] = {"r0", "r1", "r2", "r3"};
template <typename M> static void apply(M &m, const Op &o) {
  if (o.reset) m.reset(o.c, OrderCell{o.v});
  else m.update(o.c, obs(o.v));
}
template <typename M> static void check_extent(const M &m, const Coord &c) {
  Coord i{c.x + m.origin().x, c.y + m.origin().y};
  verif_check(vand(0 <= i.x, i.x < m.width(), 0 <= i.y, i.y < m.height()), "a stored cell is outside of the extent");
  verif_check(m.has_cell(c), "a stored cell is not in the map");
}
static void run(GridMap &m, int n, int rx, int ry, int pick) {
  Op ops[4];
  double sc = m.scale();
  for (int i = 0; i < n; ++i) {
    ops[i].c = Coord{(int)verif_int(NX[i], -rx, rx), (int)verif_int(NY[i], -ry, ry)};
    // growth: the new extent is computed from a concrete coordinate
    int ix = ops[i].c.x + m.origin().x, iy = ops[i].c.y + m.origin().y;
    if (pick && (ix < 0 || iy < 0 || ix >= m.width() || iy >= m.height())) ops[i].c = Coord((int)verif_pick(ops[i].c.x), (int)verif_pick(ops[i].c.y));
    ops[i].reset = verif_choose(NR[i], 2);
    ops[i].v = verif_grid(NV[i], 0, 1, 1.0 / 1024);
    apply(m, ops[i]);
    check_extent(m, ops[i].c);
    verif_check(m[ops[i].c].occupancy().prob_occ == expected(ops, i + 1, ops[i].c), "the cell does not hold the value just written");
    verif_check(!m[ops[i].c].is_unknown() || ops[i].reset, "an updated cell is unknown");
  }
  for (int i = 0; i < n; ++i) verif_check(m[ops[i].c].occupancy().prob_occ == expected(ops, n, ops[i].c), "a written cell lost its value");
  Coord q{(int)verif_int("qx", -rx - 2, rx + 2), (int)verif_int("qy", -ry - 2, ry + 2)};
  verif_check(m[q].occupancy().prob_occ == expected(ops, n, q), "a cell does not hold the value produced by its operations");
  verif_check(m.occupancy(q) == m[q].occupancy().prob_occ, "occupancy() disagrees with the cell");
  verif_check(m.scale() == sc, "growing changed the scale");
  verif_observe_d("q", m[q].occupancy().prob_occ);
}
static std::shared_ptr<GridCell> proto() { return std::make_shared<OrderCell>(Proto); }
static const int SZ[][2] = {{1, 1}, {3, 2}, {7, 6}, {11, 5}};
VERIF_ENTRY(c01_plain_x) {
  auto &s = SZ[verif_choose("size", T ? 4 : 3)];
  auto &m = *new UnboundedPlainGridMap(proto(), GridMapParams{s[0], s[1], 0.5});
  run(m, T ? 3 : 2, T ? 8 : 7, 0, 1);
}
VERIF_ENTRY(c01_plain_xy) {
  auto &s = SZ[verif_choose("size", T ? 3 : 2)];
  auto &m = *new UnboundedPlainGridMap(proto(), GridMapParams{s[0], s[1], 0.5});
  run(m, 2, T ? 4 : 3, T ? 4 : 1, 1);
}
VERIF_ENTRY(c01_tiled_x) {
  static const int TS[][2] = {{1, 1}, {10, 10}, {128, 128}, {300, 129}};
  auto &s = TS[verif_choose("size", T ? 4 : 3)];
  auto &m = *new UnboundedLazyTiledGridMap(proto(), GridMapParams{s[0], s[1], 0.5});
  run(m, T ? 3 : 2, T ? 600 : 300, 0, 0);
}
VERIF_ENTRY(c01_tiled_xy) {
  static const int TS[][2] = {{1, 1}, {130, 10}};
  auto &s = TS[verif_choose("size", T ? 2 : 1)];
  auto &m = *new UnboundedLazyTiledGridMap(proto(), GridMapParams{s[0], s[1], 0.5});
  run(m, 2, T ? 300 : 140, T ? 300 : 8, 0);
}
// growth arithmetic of wide maps: one operation just outside
VERIF_ENTRY(c01_growth) {
  int w = 1 + verif_choose("w", T ? 64 : 14);
  auto &m = *new UnboundedPlainGridMap(proto(), GridMapParams{w, 1, 0.5});
  Coord a{0, 0}; m.reset(a, OrderCell{0.75});
  int x = verif_pick(verif_int("x", -w, 2 * w)); double v = verif_grid("v", 0, 1, 0.125);
  m.reset(Coord{x, 0}, OrderCell{v}); check_extent(m, Coord{x, 0}); check_extent(m, a);
  Coord q{(int)verif_int("q", -2 * w, 3 * w), 0}; q.x = verif_pick(q.x);
  verif_check(m[q].occupancy().prob_occ == (q.x == x ? v : q.x == 0 ? 0.75 : Proto), "a cell does not hold the value produced by its operations");
}
// far away: coordinates beyond what small integer types hold
static void far(GridMap &m, int x, int y) {
  Coord a{0, 0}, b{x, y}; double v = verif_grid("v", 0, 1, 0.125), w = verif_grid("w", 0, 1, 0.125);
  m.update(a, obs(v)); m.reset(b, OrderCell{w}); m.update(a, obs(w));
  check_extent(m, a); check_extent(m, b);
  verif_check(m[b].occupancy().prob_occ == w, "a cell far away does not hold its value");
  verif_check(m[a].occupancy().prob_occ == 0.5 * (0.5 * Proto + v) + w, "a written cell lost its value");
  Coord q{(int)verif_int("qx", x - 2, x + 2), y};
  verif_check(vor(q.x == x, m[q].occupancy().prob_occ == Proto), "a cell far away that was not written holds a value");
}
VERIF_ENTRY(c01_far_tiled) {
  static const int P[][2] = {{70001, 0}, {-70001, 0}, {0, 40000}, {0, -40000}, {-20000, 20003}};
  auto &p = P[verif_choose("at", 5)];
  far(*new UnboundedLazyTiledGridMap(proto(), GridMapParams{10, 10, 0.5}), p[0], p[1]);
}
VERIF_ENTRY(c01_far_plain) {
  static const int P[][2] = {{33000, 0}, {-33000, 0}, {0, 300}, {0, -3000}};
  auto &p = P[verif_choose("at", 4)];
  far(*new UnboundedPlainGridMap(proto(), GridMapParams{1, 1, 0.5}), p[0], p[1]);
}
