// C06: occupancy estimates of a crossed cell are valid and follow from how the beam divides the cell.
#include "verif.h"
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 64;
struct Base { double po, qo, pe, qe; AreaOccupancyEstimator *e; double low, unknown; };
static Base base(int symbolic = 0) {
  Base b{0.95, 0.75, 0.0625, 0.5, nullptr, 0.03125, 0.375};
  if (symbolic) { b.qo = verif_grid("oq", 0, 1, Q); b.pe = verif_grid("ep", 0, 1, Q); b.qe = verif_grid("eq", 0, 1, Q); }
  b.e = new AreaOccupancyEstimator(Occupancy{b.po, b.qo}, Occupancy{b.pe, b.qe}, b.low, b.unknown);
  return b;
}
static const int Dir[][2] = {{1, 0}, {0, 1}, {1, 1}, {2, 1}, {-1, 3}, {-1, 0}, {0, -1}, {-2, -1}, {1, -1}, {3, -2}, {-1, -1}, {-1, 1}, {1, 2}, {-3, 1}};
enum { DN = 10, DT = 14 };
// the area of the square [0,s]^2 where dx * x + dy * y <= t
static double below(double dx, double dy, double s, double t) {
  // reflect so that both are positive
  if (dx < 0) { t -= dx * s; dx = -dx; }
  if (dy < 0) { t -= dy * s; dy = -dy; }
  double lo = std::min(dx, dy), hi = std::max(dx, dy);
  if (t <= 0) return 0;
  if (t >= (lo + hi) * s) return s * s;
  if (t < lo * s) return t * t / (2 * lo * hi);
  if (t <= hi * s) return s * (t - lo * s / 2) / hi;
  double r = (lo + hi) * s - t;
  return s * s - r * r / (2 * lo * hi);
}
static int unavailable(const Occupancy &o) { return vand(std::isnan(o.prob_occ), std::isnan(o.estimation_quality)); }
static int valid(const Occupancy &o) { return vand(o.prob_occ >= 0, o.prob_occ <= 1, o.estimation_quality >= 0) & (o.estimation_quality <= 1); }
static Occupancy ask(const Base &b, double X, double Y, double s, double bx, double by, double ex, double ey, int occ) {
  Segment2D beam{{X + bx, Y + by}, {X + ex, Y + ey}}; Rectangle cell{Y, Y + s, X, X + s};
  Occupancy o = b.e->estimate_occupancy(beam, cell, occ);
  if (std::isnan(o.prob_occ)) { verif_check(!o.is_valid(), "an estimate that is not a number passes for a valid one"); return o; }
  verif_check(valid(o), "an estimate is not a probability");
  return o;
}
static const double Cx[] = {0, -3.5, 12, 0.75}, Cy[] = {0, 2.25, -7, -64};
static const double Sc[] = {1, 0.5, 2, 0.125};
struct Cell { double X, Y, s; };
static Cell cell() { int k = verif_choose("cell", T ? 4 : 3); return {Cx[k], Cy[k], Sc[k]}; }
static int off(double v, double s) { double e = 1e-4; return vand(vor(v < -e, v > e), vor(v < s - e, v > s + e)); } // not at a border
// a beam coming from outside the cell, ending anywhere in it: the occupied share lies behind its end
static void occupied(const Base &b, const Cell &c, const int *d, double ex, double ey) {
  double dx = d[0], dy = d[1], s = c.s, L = 4;
  verif_assume(vand(vand(ex > 0, ex < s), vand(ey > 0, ey < s)));
  verif_assume(vand(off(ex, s), off(ey, s)));
  Occupancy o = ask(b, c.X, c.Y, s, ex - L * dx * s, ey - L * dy * s, ex, ey, 1);
  verif_check(!unavailable(o), "no estimate for an obstacle in the cell");
  double share = 1 - below(dx, dy, s, dx * ex + dy * ey) / (s * s);
  verif_check(vor(vnear(o.prob_occ, share, 1e-6), vand(share < b.pe + 1e-6, vnear(o.prob_occ, b.pe, 1e-6))), "the occupied share is not the one behind the end of the beam");
  verif_check(vor(o.prob_occ == b.po, vnear(o.estimation_quality, b.qo, 1e-9)), "an occupied estimate is of another quality");
}
VERIF_ENTRY(c06_occupied) {
  auto b = base(); auto c = cell(); auto d = Dir[verif_choose("direction", T ? DT : DN)];
  occupied(b, c, d, verif_grid("ex", 0, c.s, Q * c.s), verif_grid("ey", 0, c.s, Q * c.s));
}
VERIF_ENTRY(c06_occupied_base) {
  auto b = base(1); Cell c{-3.5, 2.25, 0.5}; auto d = Dir[verif_choose("direction", 4)];
  static const double E[][2] = {{0.25, 0.125}, {0.4375, 0.375}, {0.0625, 0.3125}}; auto e = E[verif_choose("end", 3)];
  occupied(b, c, d, e[0], e[1]);
}
// a piercing beam: the smaller share it cuts is the quality of the free estimate
static void pierce(const Base &b, const Cell &c, const int *d, double px, double py) { // through (px, py)
  double dx = d[0], dy = d[1], s = c.s, L = 8;
  double bx = px - L * dx * s, by = py - L * dy * s, ex = px + L * dx * s, ey = py + L * dy * s;
  Occupancy f = ask(b, c.X, c.Y, s, bx, by, ex, ey, 0), o = ask(b, c.X, c.Y, s, bx, by, ex, ey, 1);
  verif_check(unavailable(o), "a piercing beam yields an occupied estimate");
  double part = below(dy, -dx, s, dy * px - dx * py) / (s * s);
  if (part > 0.5) part = 1 - part;
  const double E = 1e-5;
  if (unavailable(f)) { verif_check(part < E, "no estimate for a crossed cell"); return; }
  verif_check(vnear(f.prob_occ, b.pe, 1e-12), "a free estimate is of another probability");
  if (part < E) { // along an edge, or missing it
    verif_check(vor(f.estimation_quality <= b.qe * E * 2, vnear(f.estimation_quality, b.qe * b.low, 1e-9)), "a beam along a border says more than one inside");
    return;
  }
  verif_check(vnear(f.estimation_quality, b.qe * part, 1e-6), "the quality is not the share the beam cuts");
}
VERIF_ENTRY(c06_free) {
  auto b = base(); auto c = cell(); auto d = Dir[verif_choose("direction", T ? DT : DN)];
  // any line of that direction: through a point of an axis
  double p = verif_grid("p", -4 * c.s, 4 * c.s, Q * c.s);
  int k = std::abs(d[0]) >= std::abs(d[1]);
  pierce(b, c, d, k ? 0 : p, k ? p : 0);
}
VERIF_ENTRY(c06_free_base) {
  auto b = base(1); Cell c{-3.5, 2.25, 0.5}; auto d = Dir[verif_choose("direction", 4)];
  static const double E[][2] = {{0.25, 0.125}, {0.4375, 0.375}, {0.0625, 0.3125}}; auto e = E[verif_choose("end", 3)];
  pierce(b, c, d, e[0], e[1]);
}
// beams that start or end (or both) in the cell, or miss it
VERIF_ENTRY(c06_partial) {
  auto b = base(); auto c = cell(); auto d = Dir[verif_choose("direction", T ? DT : 5)]; double s = c.s;
  double px = verif_grid("px", 0, s, Q * s), py = verif_grid("py", 0, s, Q * s), dx = d[0] * s, dy = d[1] * s;
  verif_assume(vand(off(px, s), off(py, s)));
  int occ = verif_choose("occupied", 2); Occupancy o = Occupancy::invalid();
  switch (verif_choose("kind", 4)) {
  case 0: o = ask(b, c.X, c.Y, s, px, py, px + 4 * dx, py + 4 * dy, occ); break; // starts inside
  case 1: { double qx = verif_grid("qx", 0, s, Q * s), qy = verif_grid("qy", 0, s, Q * s); verif_assume(vand(off(qx, s), off(qy, s))); o = ask(b, c.X, c.Y, s, px, py, qx, qy, occ); break; } // inside
  case 2: o = ask(b, c.X, c.Y, s, px, py, px, py, occ); break; // nowhere
  case 3: if (occ) return; o = ask(b, c.X, c.Y, s, px - 4 * dx, py - 4 * dy, px, py, 0); break; // ends inside, without an obstacle
  }
  if (occ) verif_check(unavailable(o), "a beam out of the cell yields an occupied estimate");
  else verif_check(vand(o.prob_occ == b.pe, o.estimation_quality == b.unknown), "a partly crossed cell is not of the quality of an unknown one");
}
VERIF_ENTRY(c06_outside) {
  auto b = base(); auto c = cell(); auto d = Dir[verif_choose("direction", T ? DT : 5)]; double s = c.s, dx = d[0] * s, dy = d[1] * s;
  double px = verif_grid("px", -3 * s, 3 * s, Q * s), py = verif_grid("py", -3 * s, 3 * s, Q * s); const double E = 1e-4;
  double qx = px + dx, qy = py + dy; // entirely at one side of the cell
  verif_assume(vor(vor(vand(px < -E, qx < -E), vand(px > s + E, qx > s + E)), vor(vand(py < -E, qy < -E), vand(py > s + E, qy > s + E))));
  Occupancy o = ask(b, c.X, c.Y, s, px, py, qx, qy, verif_choose("occupied", 2));
  verif_check(unavailable(o), "a beam apart from the cell yields an estimate");
}
// beams along edges, ending at edges, through corners; concrete shapes in cells of any position
VERIF_ENTRY(c06_edges) {
  struct Shape { double bx, by, ex, ey; double part, share; }; // -1: not available, -2: unknown quality; share -1: not available
  const double l = 0.03125;
  static const Shape S[] = {
    {0, -2, 0, 3, l, -1}, {1, 3, 1, -2, l, -1}, {-2, 0, 3, 0, l, -1}, {3, 1, -2, 1, l, -1}, // along an edge
    {0, -2, 0, 0.5, -2, 0.5}, {1, 3, 1, 0.25, -2, 0.25}, {-2, 1, 0.25, 1, -2, 0.75}, {3, 0, 0.25, 0, -2, 0.25}, // ending on it
    {-2, 0.5, 0, 0.5, -2, 1}, {3, 0.25, 1, 0.25, -2, 1}, {0.5, 3, 0.5, 1, -2, 1}, {0.75, -2, 0.75, 0, -2, 1}, // up to the front edge
    {-2, 0.5, 1, 0.5, 0.5, 0}, {3, 0.25, 0, 0.25, 0.25, 0}, {0.5, 3, 0.5, 0, 0.5, 0}, {0.75, -2, 0.75, 1, 0.25, 0}, // up to the rear edge
    {-1, -1, 0, 0, -2, 1}, {2, 2, 1, 1, -2, 1}, {-1, 2, 0, 1, -2, 1}, {2, -1, 1, 0, -2, 1}, // up to the front corner
    {-1, -1, 2, 2, 0.5, -1}, {2, -1, -1, 2, 0.5, -1}, {-1, 2, 2, -1, 0.5, -1}, // through two corners
    {-2, -1, 2, 1, 0.25, -1}, {-1, -2, 1, 2, 0.25, -1}, {-2, 2, 2, 0, 0.25, -1}, {2, 3, -1, -3, 0.25, -1}, // through one
    {-1, 1, 1, -1, -1, -1}, {0, 2, 2, 0, -1, -1}, {-1, 0, 1, 2, -1, -1}, {0, -1, 2, 1, -1, -1}, // touching one
    {0, 0.5, 3, 2, 0.25, -1}, {0.5, 1, 0.5, -3, 0.5, -1}, {1, 0.5, 3, 0.5, -1, -1}, {0.5, 0, 0.25, -2, -1, -1}, // starting at an edge
    {-1, 0.5, 0.25, 0.5 + 1.25 / 2, -1, -1}};
  enum { N = sizeof S / sizeof *S - 1 };
  auto b = base(); int k = verif_choose("shape", N), occ = verif_choose("occupied", 2); auto &h = S[k];
  static const double Z[] = {1, 0.5, 4}; double s = Z[verif_choose("size", 3)];
  if (verif_choose("before", 2)) { Base o = base(); ask(verif_choose("estimator", 2) ? o : b, 5, 5, 3, 5, 0, 5, 20, 0); ask(b, -5, 5, 3, 0, -20, 0, 20, 1); }
  double X = verif_grid("X", -16, 16, Q), Y = verif_grid("Y", -16, 16, Q);
  Occupancy o = ask(b, X, Y, s, h.bx * s, h.by * s, h.ex * s, h.ey * s, occ);
  if (occ) {
    if (h.share < 0) { verif_check(unavailable(o), "an occupied estimate without an obstacle in the cell"); return; }
    verif_check(vnear(o.prob_occ, std::max(h.share, b.pe), 1e-7), "the occupied share is not the one behind the end of the beam");
  } else if (h.part == -1) verif_check(unavailable(o), "a beam touching the cell yields an estimate");
  else if (h.part == -2) verif_check(vand(o.prob_occ == b.pe, o.estimation_quality == b.unknown), "a partly crossed cell is not of the quality of an unknown one");
  else verif_check(vand(o.prob_occ == b.pe, vnear(o.estimation_quality, b.qe * h.part, 1e-7)), "the quality is not the share the beam cuts");
}
// shifting cell and beam together changes nothing
VERIF_ENTRY(c06_shift) {
  auto b = base(); auto d = Dir[verif_choose("direction", T ? DT : 5)]; double s = Sc[verif_choose("size", 2)];
  double X = verif_grid("X", -16, 16, Q), Y = verif_grid("Y", -16, 16, Q);
  static const double E[][2] = {{0.25, 0.375}, {0.9375, 0.75}, {0.0625, 0.5}, {0.5, -0.125}}; auto e = E[verif_choose("end", 4)];
  static const double B[] = {3, 0.125}, F[] = {0, 2, 0.25}; double r = B[verif_choose("beg", 2)], f = F[verif_choose("behind", 3)];
  int occ = verif_choose("occupied", 2);
  double bx = (e[0] - r * d[0]) * s, by = (e[1] - r * d[1]) * s, ex = (e[0] + f * d[0]) * s, ey = (e[1] + f * d[1]) * s;
  Occupancy a = ask(b, 0, 0, s, bx, by, ex, ey, occ), o = ask(b, X, Y, s, bx, by, ex, ey, occ);
  if (unavailable(a)) { verif_check(unavailable(o), "an estimate depends on the position of cell and beam"); return; }
  verif_check(vand(vnear(a.prob_occ, o.prob_occ, 1e-7), vnear(a.estimation_quality, o.estimation_quality, 1e-7)), "an estimate depends on the position of cell and beam");
}
// any beam at all
VERIF_ENTRY(c06_const) {
  double po = verif_grid("po", 0, 1, Q), qo = verif_grid("qo", 0, 1, Q), pe = verif_grid("pe", 0, 1, Q), qe = verif_grid("qe", 0, 1, Q);
  ConstOccupancyEstimator &e = *new ConstOccupancyEstimator(Occupancy{po, qo}, Occupancy{pe, qe});
  for (int i = 0; i < 2; ++i) {
    double x = verif_grid("x", -9, 9, Q), y = verif_grid("y", -9, 9, Q), z = verif_grid("z", -9, 9, Q), s = verif_grid("s", Q, 4, Q); int occ = verif_choose("occupied", 2);
    CellOccupancyEstimator &ce = e;
    Occupancy o = ce.estimate_occupancy(Segment2D{{x, y}, {z, x}}, Rectangle{y, y + s, z, z + s}, occ);
    verif_check(vand(o.prob_occ == (occ ? po : pe), o.estimation_quality == (occ ? qo : qe)), "the constant estimate is not the configured one");
  }
}
