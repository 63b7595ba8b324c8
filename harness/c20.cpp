// C20: scan points keep their place and occupancy in every form; cached trigonometry agrees with the direct one.
#include "verif.h"
#include "core/states/sensor_data.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 64, E = 1e-7;
static const double An[] = {0, 0.5, -2, 3.1, 1.5707963267948966, -1.2, 2.4, -3.14159, 5, -7};
static double angle(const char *n) { return An[verif_choose(n, T ? 10 : 6)]; }
static void place(const ScanPoint2D &p, double x, double y, int occ) {
  verif_check(vand(vnear(p.x(), x, E), vnear(p.y(), y, E)), "the point moves");
  verif_check(p.is_occupied() == (bool)occ, "the occupancy changes");
}
static void place(const Point2D &p, double x, double y) { verif_check(vand(vnear(p.x, x, E), vnear(p.y, y, E)), "the point moves to another place"); }
// polar points in fixed directions
VERIF_ENTRY(c20_polar) {
  double r = verif_grid("range", 0, 64, Q), a = angle("angle"), d = angle("rotation"); int occ = verif_choose("occupied", 2);
  double dx = verif_grid("dx", -64, 64, Q), dy = verif_grid("dy", -64, 64, Q), dr = verif_grid("dr", 0, 8, Q);
  ScanPoint2D p = ScanPoint2D::make_polar(r, a, occ);
  double x = r * std::cos(a), y = r * std::sin(a), rx = r * std::cos(a + d), ry = r * std::sin(a + d);
  place(p, x, y, occ);
  verif_check(vand(p.range() == r, p.angle() == a), "a polar point loses its range or angle");
  place(p.to_cartesian(), x, y, occ);
  place(p.to_cartesian(d), rx, ry, occ);
  place(p.to_cartesian(d, dr), (r + dr) * std::cos(a + d), (r + dr) * std::sin(a + d), occ);
  auto tp = std::make_shared<RawTrigonometryProvider>();
  tp->set_base_angle(d + 5e-5); tp->set_base_angle(d); // next to an earlier one
  place(p.to_cartesian(tp), rx, ry, occ);
  place(p.move_origin(dx, dy, tp), dx + rx, dy + ry);
  place(p.move_origin(Point2D{dx, dy}, tp), dx + rx, dy + ry);
  place(p.move_origin(dx, dy, d), dx + rx, dy + ry);
  place(p.move_origin(dx, dy), dx + x, dy + y);
  verif_check(vand(p.range() == r, p.angle() == a, p.is_occupied() == (bool)occ), "a conversion changes the point itself");
}
// a polar point in any direction
VERIF_ENTRY(c20_direction) {
  double a = verif_real("angle", -7, 7), d = angle("rotation"), dx = verif_grid("dx", -64, 64, Q), dy = verif_grid("dy", -64, 64, Q);
  static const double R[] = {1, 0.3, 20, 0};
  double r = R[verif_choose("range", 3 + T)]; int occ = verif_choose("occupied", 2);
  ScanPoint2D p = ScanPoint2D::make_polar(r, a, occ);
  double c = std::cos(a), s = std::sin(a), cd = std::cos(d), sd = std::sin(d), rx = r * (c * cd - s * sd), ry = r * (s * cd + c * sd);
  place(p, r * c, r * s, occ);
  place(p.to_cartesian(), r * c, r * s, occ);
  place(p.to_cartesian(d), rx, ry, occ);
  auto tp = std::make_shared<RawTrigonometryProvider>();
  tp->set_base_angle(d + 5e-5); tp->set_base_angle(d); // next to an earlier one
  place(p.to_cartesian(tp), rx, ry, occ);
  place(p.move_origin(dx, dy, tp), dx + rx, dy + ry);
  place(p.move_origin(dx, dy, d), dx + rx, dy + ry);
  place(p.move_origin(dx, dy), dx + r * c, dy + r * s);
}
// Cartesian points
static void cartesian(double x, double y) {
  double d = angle("rotation"), dx = verif_grid("dx", -8, 8, Q), dy = verif_grid("dy", -8, 8, Q);
  int occ = verif_choose("occupied", 2);
  ScanPoint2D p = ScanPoint2D::make_cartesian({x, y}, occ);
  place(p, x, y, occ);
  double r = p.range();
  verif_check(vand(r >= 0, vnear(r * r, x * x + y * y, 1e-6)), "not the distance of the point");
  double a = p.angle();
  verif_check(vand(vnear(r * std::cos(a), x, E), vnear(r * std::sin(a), y, E)), "the angle is not the direction of the point");
  double cd = std::cos(d), sd = std::sin(d), rx = x * cd - y * sd, ry = x * sd + y * cd;
  switch (verif_choose("conversion", 7)) {
  case 0: place(p.to_polar(), x, y, occ); break;
  case 1: place(p.to_cartesian(), x, y, occ); break;
  case 2: place(p.to_cartesian(d), rx, ry, occ); break;
  case 3: place(p.move_origin(dx, dy), x + dx, y + dy); break;
  case 4: place(p.move_origin(dx, dy, d), dx + rx, dy + ry); break;
  case 5: { auto q = p.to_polar(); place(q.to_cartesian(), x, y, occ); place(q.to_cartesian(d), rx, ry, occ); break; }
  case 6: { auto tp = std::make_shared<RawTrigonometryProvider>(); tp->set_base_angle(d); place(p.move_origin(dx, dy, tp), dx + rx, dy + ry); place(p.to_cartesian(tp), rx, ry, occ); break; }
  }
  verif_check(vand(p.x() == x, p.y() == y, p.is_occupied() == (bool)occ), "a conversion changes the point itself");
}
VERIF_ENTRY(c20_cartesian) { cartesian(verif_grid("x", -16, 16, Q), verif_grid("y", -16, 16, Q)); }
VERIF_ENTRY(c20_axis) { // on the axes
  double v = verif_grid("v", -16, 16, Q);
  if (verif_choose("axis", 2)) cartesian(v, 0); else cartesian(0, v);
}
// to polar with a shift
VERIF_ENTRY(c20_shifted_polar) {
  double x = verif_grid("x", -16, 16, Q), y = verif_grid("y", -16, 16, Q), dx = verif_grid("dx", -8, 8, Q), dy = verif_grid("dy", -8, 8, Q);
  int occ = verif_choose("occupied", 2), polar = verif_choose("polar", 2);
  ScanPoint2D p = ScanPoint2D::make_cartesian({x, y}, occ);
  if (polar) { double a = angle("angle"); x = verif_grid("r", 0, 16, Q); p = ScanPoint2D::make_polar(x, a, occ); y = x * std::sin(a); x = x * std::cos(a); }
  place(p.to_polar(dx, dy), x + dx, y + dy, occ);
}
// the table of a provider
static const double Inc[] = {0.25, 0.1, 0.017453292519943295, 0.7};
static void same(const TrigonometryProvider &tp, double base, double min, int i, double inc, double off) {
  double a = min + i * inc, q = a + off * inc;
  double ca = std::cos(a), sa = std::sin(a), cb = std::cos(base), sb = std::sin(base);
  verif_check(vnear(tp.cos(q), ca * cb - sa * sb, 1e-6), "not the cosine of the angle");
  verif_check(vnear(tp.sin(q), sa * cb + ca * sb, 1e-6), "not the sine of the angle");
}
VERIF_ENTRY(c20_cached) {
  int n = 1 + verif_choose("angles", T ? 12 : 6);
  double inc = Inc[verif_choose("increment", T ? 4 : 3)];
  static const double Min[] = {-0.5, 0, -2.1, 2.5};
  double min = Min[verif_choose("min", T ? 4 : 3)], max = min + (n - 1) * inc;
  double base = verif_real("base", -7, 7), off = verif_real("off", -1e-7, 1e-7);
  auto &tp = *new CachedTrigonometryProvider();
  int order = verif_choose("order", 4);
  if (order == 1) tp.set_base_angle(base);
  if (order == 2) { tp.update(-1, 1, 0.5); verif_observe_d("earlier", tp.cos(0.5)); }
  if (order == 3) { tp.update(min, max + inc, inc); tp.set_base_angle(0.7); verif_observe_d("earlier", tp.sin(min)); }
  tp.update(min, max + inc, inc); // as for a scan of n points
  if (order == 0) tp.set_base_angle(base + 5e-5); // next to the one wanted
  if (order != 1) tp.set_base_angle(base);
  same(tp, base, min, n == 1 ? 0 : verif_choose("i", n), inc, off);
}
VERIF_ENTRY(c20_cached_min) { // any first angle
  const int n = 3 + T; double inc = Inc[verif_choose("increment", 3)];
  double min = verif_real("min", -4, 4); static const double B[] = {0, 0.5, -3};
  double base = B[verif_choose("base", 3)];
  auto &tp = *new CachedTrigonometryProvider();
  tp.update(min, min + n * inc, inc);
  tp.set_base_angle(base);
  same(tp, base, min, verif_choose("i", n), inc, 0);
}
// only one of the parameters changes
VERIF_ENTRY(c20_cached_again) {
  auto &tp = *new CachedTrigonometryProvider();
  double min = -0.5, max = 0.5, inc = 0.25;
  tp.update(min, max, inc);
  int what = verif_choose("what", 4);
  if (what == 0) min = -0.25;
  if (what == 1) max = 1.25;
  if (what == 2) inc = 0.125;
  if (what == 3) min = -0.75;
  tp.update(min, max, inc);
  double base = verif_real("base", -7, 7);
  tp.set_base_angle(base);
  int n = (int)((max - min) / inc + 0.5);
  for (int i = 0; i < n; ++i) same(tp, base, min, i, inc, 0);
}
// whole scans
VERIF_ENTRY(c20_scan) {
  const int n = 3; int cached = verif_choose("cached", 2);
  double inc = 0.5, min = -0.75, base = T ? verif_real("base", -7, 7) : An[verif_choose("base", 6)];
  auto &scan = *new LaserScan2D();
  if (cached) { auto tp = std::make_shared<CachedTrigonometryProvider>(); tp->update(min, min + n * inc, inc); scan.trig_provider = tp; }
  std::vector<double> r; std::vector<int> occ;
  for (int i = 0; i < n; ++i) {
    r.push_back(verif_grid("range", 0, 32, Q)); occ.push_back(i == 1 ? verif_choose("occupied", 2) : 1);
    scan.points().push_back(ScanPoint2D::make_polar(r[i], min + i * inc, occ[i]));
  }
  if (verif_choose("before", 2)) verif_observe_i("earlier", (int)scan.to_cartesian(0.3).points().size());
  auto c = scan.to_cartesian(base);
  verif_check((int)c.points().size() == n, "a point is lost");
  double cb = std::cos(base), sb = std::sin(base);
  for (int i = 0; i < n; ++i) {
    double a = min + i * inc;
    place(c.points()[i], r[i] * (std::cos(a) * cb - std::sin(a) * sb), r[i] * (std::sin(a) * cb + std::cos(a) * sb), occ[i]);
    verif_check(vand(scan.points()[i].range() == r[i], scan.points()[i].angle() == a, scan.points()[i].is_occupied() == (bool)occ[i]), "the scan itself changes");
  }
}
// a table as large as that of a real scanner
VERIF_ENTRY(c20_cached_large) {
  const int n = 720; double inc = 0.008726646259971648, min = -3.1, base = verif_real("base", -7, 7);
  static const int At[] = {0, 127, 128, 255, 256, 511, 719};
  auto &tp = *new CachedTrigonometryProvider();
  tp.update(min, min + n * inc, inc);
  tp.set_base_angle(base);
  same(tp, base, min, At[verif_choose("i", 7)], inc, verif_real("off", -1e-7, 1e-7));
}
