// C03: world, cell and storage coordinates of a grid.
#include "verif.h"
#include "core/maps/grid_map.h"
#ifdef VERIF_THOROUGH
static const double Scales[] = {1, 0.25, 0.1, 0.05, 0.3, 3.7, 1e-2, 64, 0.7};
#else
static const double Scales[] = {1, 0.25, 0.1, 0.3};
#endif
static const int NS = sizeof Scales / sizeof Scales[0];
using Coord = RegularSquaresGrid::Coord;
class Grid : public RegularSquaresGrid {
public:
  Grid(int w, int h, double s) : RegularSquaresGrid{w, h, s} {}
  Coord e2i(const Coord &c) const { return external2internal(c); }
  bool has_i(const Coord &c) const { return has_internal_cell(c); }
};
class ShiftedGrid : public Grid {
public:
  ShiftedGrid(int w, int h, double s, Coord o) : Grid{w, h, s}, _o{o} {}
  DiscretePoint2D origin() const override { return _o; }
private:
  Coord _o;
};
static bool exact(double s) { return s == 1 || s == 0.25 || s == 64; }
// the cell of a world point
static void world(const RegularSquaresGrid &g, double s) {
  double x = verif_real("x", -1000, 1000), y = verif_real("y", -1000, 1000);
  Coord c = g.world_to_cell(x, y);
  auto b = g.world_cell_bounds(c);
  double e = exact(s) ? 0 : 1e-9;
  verif_check(vand(b.left() - e <= x, b.bot() - e <= y), "point is left of or below its cell");
  verif_check(e == 0 ? vand(x < b.right(), y < b.top()) : vand(x < b.right() + e, y < b.top() + e), "point is right of or above its cell");
  verif_check(vand(vnear(b.hside_len(), s, 1e-9), vnear(b.vside_len(), s, 1e-9)), "cell size differs from the scale");
  verif_check(g.world_to_cell(Point2D{x, y}) == c, "point overload disagrees");
  verif_check(g.world_to_cell(x, y, s) == c, "explicit scale overload disagrees");
  // neighbours do not contain the point
  int dx = verif_int("dx", -3, 3), dy = verif_int("dy", -3, 3);
  verif_assume(vor(dx != 0, dy != 0));
  auto n = g.world_cell_bounds({c.x + dx, c.y + dy});
  verif_check(vand(n.left() + e <= x, x < n.right() - e, n.bot() + e <= y, y < n.top() - e) ^ 1, "point lies in another cell too");
  verif_observe_i("cx", c.x);
}
VERIF_ENTRY(c03_world) { double s = Scales[verif_choose("scale", NS)]; Grid g{10, 10, s}; world(g, s); }
VERIF_ENTRY(c03_cell) {
  double s = Scales[verif_choose("scale", NS)];
  Grid g{verif_choose("w", 2) ? 7 : 10, 9, s};
  Coord c{(int)verif_int("cx", -30000, 30000), (int)verif_int("cy", -30000, 30000)};
  auto p = g.cell_to_world(c);
  auto b = g.world_cell_bounds(c);
  verif_check(vand(vnear(p.x - b.left(), s / 2, 1e-6 * s), vnear(b.right() - p.x, s / 2, 1e-6 * s), vnear(p.y - b.bot(), s / 2, 1e-6 * s), vnear(b.top() - p.y, s / 2, 1e-6 * s)), "center is not in the middle of the cell");
  verif_check(vand(vnear(b.left(), s * c.x, 1e-6 * s), vnear(b.bot(), s * c.y, 1e-6 * s)), "cell is placed wrongly");
  auto r = g.world_to_cell(p);
  verif_check(vand(r.x == c.x, r.y == c.y), "the center of a cell maps to another cell");
}
static void storage(const Grid &g, int w, int h, int def_origin) {
  Coord c{(int)verif_int("cx", -1000000, 1000000), (int)verif_int("cy", -1000000, 1000000)};
  auto i = g.e2i(c); auto e = g.internal2external(i);
  verif_check(vand(e.x == c.x, e.y == c.y), "external -> storage -> external");
  auto j = g.e2i(g.internal2external(c));
  verif_check(vand(j.x == c.x, j.y == c.y), "storage -> external -> storage");
  int inside = vand(0 <= i.x, i.x < w, 0 <= i.y, i.y < h);
  verif_check(g.has_cell(c) == inside, "has_cell differs from the extent");
  verif_check(vand(i.x - c.x == g.origin().x, i.y - c.y == g.origin().y), "storage coordinate is not shifted by the origin");
  verif_check(vand(g.width() == w, g.height() == h), "extent");
  if (def_origin) {
    verif_check(vand(vand(0 <= g.origin().x, g.origin().x < w, 0 <= g.origin().y, g.origin().y < h), vand(g.origin().x == w / 2, g.origin().y == h / 2)), "origin is not in the middle of the grid");
  }
}
VERIF_ENTRY(c03_storage) {
  int w = verif_int("w", 1, 100000), h = verif_int("h", 1, 100000);
  Grid g{w, h, 0.1}; storage(g, w, h, 1);
}
VERIF_ENTRY(c03_storage_shifted) {
  int w = verif_int("w", 1, 100000), h = verif_int("h", 1, 100000);
  ShiftedGrid g{w, h, 0.1, Coord{(int)verif_int("ox", -1000, 100000), (int)verif_int("oy", -1000, 100000)}}; storage(g, w, h, 0);
}
VERIF_ENTRY(c03_infinite) {
  Grid g{1, 1, std::numeric_limits<double>::infinity()};
  double x = verif_real("x", -1e6, 1e6), y = verif_real("y", -1e6, 1e6);
  auto c = g.world_to_cell(x, y);
  verif_check(c == Coord(0, 0), "cell of an unbounded scale");
  auto b = g.world_cell_bounds(c);
  verif_check(vand(b.left() < x, x < b.right(), b.bot() < y, y < b.top()), "bounds of an unbounded scale");
}
// discrete points
VERIF_ENTRY(c03_discrete) {
  Coord a{(int)verif_int("ax", -100000, 100000), (int)verif_int("ay", -100000, 100000)}, b{(int)verif_int("bx", -100000, 100000), (int)verif_int("by", -100000, 100000)};
  auto s = a + b, d = a - b, n = -a; auto t = a; t += b;
  verif_check(vand(s.x == a.x + b.x, s.y == a.y + b.y, t.x == s.x, t.y == s.y), "sum");
  verif_check(vand(d.x == a.x - b.x, d.y == a.y - b.y, n.x == -a.x, n.y == -a.y), "difference");
  verif_check(viff(a == b, vand(a.x == b.x, a.y == b.y)), "equality");
  verif_check((a != b) == !(a == b), "inequality");
}
