// C18: algebra of axis-aligned rectangles.
#include "verif.h"
#include "core/geometry_primitives.h"
using Rect = LightWeightRectangle;
static const double R = 100;
static Rect rect(const char *b, const char *t, const char *l, const char *r) {
  double bo = verif_real(b, -R, R), to = verif_real(t, -R, R), le = verif_real(l, -R, R), ri = verif_real(r, -R, R);
  verif_assume(vand(bo <= to, le <= ri));
  return Rect{bo, to, le, ri};
}
// exact arithmetic: multiples of 1/64
static Rect grect(const char *b, const char *t, const char *l, const char *r, double lim = 16) {
  double bo = verif_grid(b, -lim, lim, 1.0/64), to = verif_grid(t, -lim, lim, 1.0/64), le = verif_grid(l, -lim, lim, 1.0/64), ri = verif_grid(r, -lim, lim, 1.0/64);
  verif_assume(vand(bo <= to, le <= ri));
  return Rect{bo, to, le, ri};
}
static int in_open(const Rect &r, double x, double y) { return vand(r.bot() < y, y < r.top(), r.left() < x, x < r.right()); }
static int in_closed(const Rect &r, double x, double y) { return vand(r.bot() <= y, y <= r.top(), r.left() <= x, x <= r.right()); }
static int in_near(const Rect &r, double x, double y, double e) {
  return vand(r.bot() - e <= y, y <= r.top() + e, r.left() - e <= x, x <= r.right() + e);
}
// every point strictly inside both lies in the intersection, every point strictly inside it lies in both
VERIF_ENTRY(c18_intersect) {
  auto a = rect("ab", "at", "al", "ar"), b = rect("bb", "bt", "bl", "br");
  double x = verif_real("x", -R, R), y = verif_real("y", -R, R);
  auto c = a.intersect(b);
  verif_check(vimp(vand(in_open(a, x, y), in_open(b, x, y)), in_near(c, x, y, 1e-4)), "a point of both rectangles is missing from their intersection");
  verif_check(vimp(in_open(c, x, y), vand(in_near(a, x, y, 1e-4), in_near(b, x, y, 1e-4))), "the intersection contains a point outside of one of the rectangles");
  verif_observe_d("area", c.area());
}
static void check_tiling(const Rect &a, const std::vector<Rect> &parts, unsigned n, double x, double y) {
  verif_check(parts.size() == n, "number of parts");
  int covered = 0, strict = 0;
  for (auto &p : parts) {
    covered |= in_near(p, x, y, 1e-9);
    strict += in_open(p, x, y);
    verif_check(vand(a.bot() - 1e-9 <= p.bot(), p.top() <= a.top() + 1e-9, a.left() - 1e-9 <= p.left(), p.right() <= a.right() + 1e-9), "a part sticks out of the rectangle");
  }
  verif_check(vimp(in_closed(a, x, y), covered), "a point of the rectangle is in no part");
  verif_check(strict <= 1, "a point is inside two parts");
  for (auto &p : parts) {
    double hv = (n == 4) ? 2 : 0; (void)hv;
    verif_check(vor(vnear(p.vside_len(), parts[0].vside_len(), 1e-9), 0), "parts have different heights");
    verif_check(vor(vnear(p.hside_len(), parts[0].hside_len(), 1e-9), 0), "parts have different widths");
  }
}
VERIF_ENTRY(c18_split) {
  auto a = grect("ab", "at", "al", "ar");
  double x = verif_real("x", -R, R), y = verif_real("y", -R, R);
  int how = verif_choose("how", 3);
  if (how == 0) check_tiling(a, a.split_vert(), 2, x, y);
  else if (how == 1) check_tiling(a, a.split_horz(), 2, x, y);
  else check_tiling(a, a.split4_evenly(), 4, x, y);
}
VERIF_ENTRY(c18_contains) {
  auto a = rect("ab", "at", "al", "ar");
  double x = verif_real("x", -R, R), y = verif_real("y", -R, R);
  bool c = a.contains(x, y);
  verif_check(vimp(in_closed(a, x, y), c), "a point within the bounds is not contained");
  verif_check(vimp(c, in_near(a, x, y, 1e-4)), "a point outside of the bounds is contained");
  verif_check(a.contains(Point2D{x, y}) == c, "point overload disagrees");
  verif_observe_i("c", c);
}
// Degenerate rectangles: line rectangles are documented as unsupported by overlap().
VERIF_ENTRY(c18_overlap) {
  // other units of length: metres, kilometres, tenths of a millimetre
  static const double U[] = {1, 1.0 / 16384, 1024};
  double u = U[verif_choose("unit", 3)];
  auto ga = grect("ab", "at", "al", "ar"), gb = grect("bb", "bt", "bl", "br");
  Rect a{ga.bot() * u, ga.top() * u, ga.left() * u, ga.right() * u}, b{gb.bot() * u, gb.top() * u, gb.left() * u, gb.right() * u};
  verif_assume(vand(a.vside_len() > 0, a.hside_len() > 0));
  auto o = a.overlap(b);
  verif_check(vand(-1e-6 <= o, o <= 1 + 1e-6), "overlap outside of [0, 1]");
  int b_contains_a = vand(b.bot() <= a.bot(), a.top() <= b.top(), b.left() <= a.left(), a.right() <= b.right());
  verif_check(vimp(b_contains_a, vnear(o, 1, 1e-9)), "overlap with a containing rectangle is not 1");
  int disjoint = vor(b.top() < a.bot() - 1e-4 * u, a.top() < b.bot() - 1e-4 * u, vor(b.right() < a.left() - 1e-4 * u, a.right() < b.left() - 1e-4 * u));
  verif_check(vimp(disjoint, o == 0), "overlap with a disjoint rectangle is not 0");
  double iw = std::min(a.right(), b.right()) - std::max(a.left(), b.left()), ih = std::min(a.top(), b.top()) - std::max(a.bot(), b.bot());
  if (iw > 0 && ih > 0) verif_check(vnear(o * a.area(), iw * ih, 1e-3 * u * u), "overlap is not the ratio of the areas");
}
VERIF_ENTRY(c18_overlap_point) {
  double px = verif_real("px", -R, R), py = verif_real("py", -R, R);
  Rect p{Point2D{px, py}};
  auto b = rect("bb", "bt", "bl", "br");
  verif_assume(vand(b.vside_len() > 1e-3, b.hside_len() > 1e-3));
  auto o = p.overlap(b);
  verif_check(vand(0 <= o, o <= 1), "overlap outside of [0, 1]");
  verif_check(vimp(in_closed(b, px, py), o == 1), "overlap of a contained point is not 1");
  verif_check(vimp(in_near(b, px, py, 1e-4) ^ 1, o == 0), "overlap of a point outside is not 0");
  verif_check(vnear(p.overlap(p), 1, 0), "a point does not overlap itself");
}
VERIF_ENTRY(c18_transform) {
  auto a = grect("ab", "at", "al", "ar", 128);
  double x = verif_grid("x", -R, R, 1.0/64), y = verif_grid("y", -R, R, 1.0/64);
  auto c = a.center();
  verif_check(vand(vnear(c.x - a.left(), a.right() - c.x, 1e-9), vnear(c.y - a.bot(), a.top() - c.y, 1e-9)), "center is not in the middle");
  auto m = a.move_center({x, y});
  verif_check(vand(vnear(m.center().x, x, 1e-9), vnear(m.center().y, y, 1e-9), vnear(m.hside_len(), a.hside_len(), 1e-9), vnear(m.vside_len(), a.vside_len(), 1e-9)), "moved rectangle has another size or place");
  auto s = a.shrink(2);
  verif_check(vand(vnear(s.center().x, c.x, 1e-9), vnear(s.center().y, c.y, 1e-9), vnear(2 * s.hside_len(), a.hside_len(), 1e-9), vnear(2 * s.vside_len(), a.vside_len(), 1e-9)), "shrunk rectangle has a wrong size or place");
  unsigned on = 0;
  for (auto &k : a.corners()) { verif_check(vand(vor(k.x == a.left(), k.x == a.right()), vor(k.y == a.bot(), k.y == a.top())), "corner is not a corner"); ++on; }
  verif_check(on == 4, "number of corners");
}
// Intersections of a ray through the rectangle lie on the ray and on the border.
VERIF_ENTRY(c18_ray) {
  double b = 0.25, l = -0.5, h = 1, w = 1.5;
  static const double D[][2] = {{0, -1}, {2, 1}, {-3, -3}, {3, -1.0/64}
#ifdef VERIF_THOROUGH
    , {1, 0}, {-1, 2}, {4, -0.5}, {1.0/64, 3}, {-1, 0}, {0, 1}, {-2, 1}, {-0.25, 0.25}, {0.125, -2}, {1, 4}, {-4, -3}, {-1.0/32, -1}, {1.0/1024, 1}, {0.375, 0.75}, {-0.5, 0.25}, {8, 8}
#endif
  };
  int k = verif_choose("dir", sizeof D / sizeof D[0]);
  double x0 = verif_grid("x0", -8, 8, 1.0 / 1024), y0 = verif_grid("y0", -8, 8, 1.0 / 1024), x1 = x0 + D[k][0], y1 = y0 + D[k][1];
  Rectangle r{b, b + h, l, l + w};
  auto is = r.find_intersections(Segment2D{{x0, y0}, {x1, y1}});
  verif_check(is.size() <= 2, "more than two intersections");
  for (auto &i : is) {
    verif_check(in_near(r, i.x, i.y, 1e-5), "intersection outside of the rectangle");
    double e = (i.location == Intersection::Location::Bot) ? i.y - r.bot() : (i.location == Intersection::Location::Top) ? i.y - r.top() :
               (i.location == Intersection::Location::Left) ? i.x - r.left() : i.x - r.right();
    verif_check(vnear(e, 0, 1e-5), "intersection is not on the named edge");
    verif_check(vnear((i.x - x0) * (y1 - y0), (i.y - y0) * (x1 - x0), 1e-5), "intersection is not on the segment line");
    verif_check(vand(std::min(x0, x1) - 1e-5 <= i.x, i.x <= std::max(x0, x1) + 1e-5, std::min(y0, y1) - 1e-5 <= i.y, i.y <= std::max(y0, y1) + 1e-5), "intersection outside of the segment");
  }
}
