// C19: the cells of a rectangle.
#include "verif.h"
#include "core/maps/grid_rasterization.h"
#include "core/maps/plain_grid_map.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
typedef RegularSquaresGrid::Coord Coord;
static const double Eps = 1e-7;
static std::vector<Coord> cells(const RegularSquaresGrid &g, const LightWeightRectangle &r, int border, int limit) {
  GridRasterizedRectangle rr{g, r, (bool)border};
  std::vector<Coord> v;
  while (rr.has_next()) {
    verif_check((int)v.size() < limit, "the iteration does not end");
    if ((int)v.size() >= limit) verif_end_path();
    auto c = rr.next();
    v.push_back(Coord{(int)verif_pick(c.x), (int)verif_pick(c.y)});
  }
  verif_check(!rr.has_next(), "the end is not reported");
  return v;
}
static void once(const std::vector<Coord> &v) {
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) verif_check((v[i] == v[j]) ^ 1, "a cell is visited twice");
}
static int has(const std::vector<Coord> &v, int x, int y) { int r = 0; for (auto &c : v) r = vor(r, vand(c.x == x, c.y == y)); return r; }
static void check(const RegularSquaresGrid &g, double s, double l, double r, double b, double t, int border, int limit) {
  auto v = cells(g, LightWeightRectangle{b, t, l, r}, border, limit);
  verif_check(!v.empty(), "no cell");
  once(v);
  // closer than this to the border of a cell a cell may or may not be visited
  for (auto &c : v) {
    double e = border ? Eps : -1e-12;
    if (!border && (l == r || b == t)) e = Eps;
    verif_check(vand(vand(c.x * s <= r + e, (c.x + 1) * s >= l - e), vand(c.y * s <= t + e, (c.y + 1) * s >= b - e)), border ? "a cell is not touched by the rectangle" : "a cell is only touched by the border of the rectangle");
  }
  double px = verif_real("px", -8 * s, 8 * s), py = verif_real("py", -8 * s, 8 * s);
  verif_assume(vand(vand(px >= l, px <= r), vand(py >= b, py <= t)));
  int cov = 0;
  for (auto &c : v) cov = vor(cov, vand(vand(px >= c.x * s - Eps, px <= (c.x + 1) * s + Eps), vand(py >= c.y * s - Eps, py <= (c.y + 1) * s + Eps)));
  verif_check(cov, "a part of the rectangle is not covered");
}
static const double Sc[] = {0.5, 0.1, 1, 1.0 / 4096, 0.3, 2, 1024};
static RegularSquaresGrid &grid(double s) { return *new RegularSquaresGrid(20, 20, s); }
// any rectangle; the width and the height are bounded by N cells
VERIF_ENTRY(c19_any) {
  double s = Sc[verif_choose("scale", T ? 7 : 4)], N = T ? 3 : 2; int border = verif_choose("border", 2);
  double l = verif_real("l", (T ? -3 : -1.5) * s, (T ? 3 : 1) * s), b = verif_real("b", (T ? -3 : -1.5) * s, (T ? 3 : 1) * s), w = verif_real("w", 0.01 * s, N * s), h = verif_real("h", 0.01 * s, N * s);
  check(grid(s), s, l, l + w, b, b + h, border, 40);
}
// aligned with the cells
VERIF_ENTRY(c19_aligned) {
  double s = Sc[verif_choose("scale", T ? 7 : 4)]; int border = verif_choose("border", 2);
  int l = verif_pick(verif_int("l", -2, 2)), b = verif_pick(verif_int("b", -2, 2)), w = verif_pick(verif_int("w", 1, 2 + T)), h = verif_pick(verif_int("h", 1, 2));
  check(grid(s), s, l * s, (l + w) * s, b * s, (b + h) * s, border, 40);
  if (!border) {
    auto v = cells(grid(s), LightWeightRectangle{b * s, (b + h) * s, l * s, (l + w) * s}, 0, 40);
    verif_check((int)v.size() == w * h, "not exactly the cells of an aligned rectangle");
  }
}
// the bounds of a cell
VERIF_ENTRY(c19_cell) {
  double s = Sc[verif_choose("scale", T ? 7 : 4)];
  int x = verif_pick(verif_int("x", -4, 4)), y = verif_pick(verif_int("y", -4, 4));
  auto &g = grid(s);
  auto v = cells(g, g.world_cell_bounds({x, y}), 0, 10);
  verif_check(v.size() == 1 && has(v, x, y), "the bounds of a cell without border are not that cell");
  auto wb = cells(g, g.world_cell_bounds({x, y}), 1, 10);
  verif_check(has(wb, x, y), "the bounds of a cell do not contain it");
}
// points and lines
VERIF_ENTRY(c19_degenerate) {
  double s = Sc[verif_choose("scale", T ? 7 : 4)], N = 2; int kind = verif_choose("kind", 3), border = verif_choose("border", 2);
  double l = verif_real("l", (T ? -3 : -1.5) * s, (T ? 3 : 1) * s), b = verif_real("b", (T ? -3 : -1.5) * s, (T ? 3 : 1) * s), w = 0, h = 0;
  if (kind == 1) w = verif_real("w", 0.01 * s, N * s);
  if (kind == 2) h = verif_real("h", 0.01 * s, N * s);
  check(grid(s), s, l, l + w, b, b + h, border, 20);
}
// everything
VERIF_ENTRY(c19_infinite) {
  int w = 1 + verif_choose("width", 4), h = 1 + verif_choose("height", 4), border = verif_choose("border", 2);
  const double Inf = RegularSquaresGrid::Dbl_Inf;
  auto &g = *new RegularSquaresGrid(w, h, 0.5);
  auto v = cells(g, LightWeightRectangle{-Inf, Inf, -Inf, Inf}, border, 40);
  once(v);
  verif_check((int)v.size() == w * h, "not every cell of the grid is visited");
  for (auto &c : v) verif_check(g.has_cell(c), "a cell outside of the grid");
}
VERIF_ENTRY(c19_large) { // more cells than a byte can count
  double s = 0.5, o = verif_grid("at", 0, 0.5, 1.0 / 1024);
  auto &g = *new UnboundedPlainGridMap(std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{400, 400, s});
  verif_assume(vand(o >= 1.0 / 64, o <= 0.5 - 1.0 / 64));
  int wide = verif_choose("wide", 2); double l = -20 * s + o, b = s + o, r = l + (wide ? 300 * s : s), t = b + (wide ? s : 300 * s);
  auto v = cells(g, LightWeightRectangle{b, t, l, r}, verif_choose("border", 2), 700);
  verif_check(v.size() == 602, "the number of cells of a long rectangle");
  if (v.size() != 602) return;
  std::vector<int> seen(602, 0); int nx = wide ? 301 : 2;
  for (auto &c : v) { int x = c.x + 20, y = c.y - 1, in = 0 <= x && x < nx && 0 <= y && y < 602 / nx; verif_check(in, "a cell is not touched by the rectangle"); if (in) ++seen[y * nx + x]; }
  int once = 1; for (int k : seen) once &= k == 1;
  verif_check(once, "a cell is visited twice or not at all");
}
