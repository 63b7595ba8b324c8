// C26: pose arithmetic and tolerant comparisons.
#include "verif.h"
#include "core/states/robot_pose.h"
static const double L = 1000;
static RobotPose pose(const char *a, const char *b, const char *c) { return {verif_real(a, -L, L), verif_real(b, -L, L), verif_real(c, -L, L)}; }
static RobotPoseDelta delta(const char *a, const char *b, const char *c) { return {verif_real(a, -L, L), verif_real(b, -L, L), verif_real(c, -L, L)}; }
static int near3(double x, double y, double t, double a, double b, double c, double e = 1e-9) { return vand(vnear(x, a, e), vnear(y, b, e), vnear(t, c, e)); }
VERIF_ENTRY(c26_pose) {
  auto p = pose("px", "py", "pt"); auto d = delta("dx", "dy", "dt"), g = delta("gx", "gy", "gt");
  auto q = p + d;
  verif_check(near3(q.x, q.y, q.theta, p.x + d.x, p.y + d.y, p.theta + d.theta), "pose plus delta");
  auto b = q - p;
  verif_check(near3(b.x, b.y, b.theta, d.x, d.y, d.theta), "(pose + delta) - pose is not the delta");
  RobotPose r = p; r += d;
  verif_check(vand(r.x == q.x, r.y == q.y, r.theta == q.theta), "+= differs from +");
  RobotPose s{d}; verif_check(vand(s.x == d.x, s.y == d.y, s.theta == d.theta), "pose from delta");
  auto sum = d + g; auto acc = d; acc += g;
  verif_check(near3(sum.x, sum.y, sum.theta, d.x + g.x, d.y + g.y, d.theta + g.theta), "sum of deltas");
  verif_check(near3(acc.x, acc.y, acc.theta, d.x + g.x, d.y + g.y, d.theta + g.theta), "accumulated deltas");
  auto n = -d; verif_check(vand(n.x == -d.x, n.y == -d.y, n.theta == -d.theta), "negated delta");
  auto z = p + d + n; verif_check(near3(z.x, z.y, z.theta, p.x, p.y, p.theta), "a delta and its opposite cancel");
  RobotPose c; c = p; verif_check(vand(c.x == p.x, c.y == p.y, c.theta == p.theta), "assignment");
  RobotPose m{std::move(c)}; verif_check(vand(m.x == p.x, m.y == p.y, m.theta == p.theta), "move");
  verif_check(vand(p.point().x == p.x, p.point().y == p.y), "position");
  g.reset(); verif_check(vand(g.x == 0, g.y == 0, g.theta == 0), "reset");
  auto a = d.abs(); verif_check(vand(vand(a.x >= 0, a.y >= 0, a.theta >= 0), vor(a.x == d.x, a.x == -d.x), vor(a.y == d.y, a.y == -d.y), vor(a.theta == d.theta, a.theta == -d.theta)), "abs");
  RobotPoseDelta o{Point2D{d.x, d.y}, d.theta}; verif_check(vand(o.x == d.x, o.y == d.y, o.theta == d.theta), "delta from offset");
  verif_observe_d("x", q.x);
}
VERIF_ENTRY(c26_delta_cmp) {
  auto d = delta("dx", "dy", "dt"), g = delta("gx", "gy", "gt");
  verif_check(d == d, "a delta differs from itself");
  verif_check((d == g) == (g == d), "delta equality is not symmetric");
  int far = vor(vnear(d.x, g.x, 2e-4) ^ 1, vnear(d.y, g.y, 2e-4) ^ 1, vnear(d.theta, g.theta, 2e-4) ^ 1);
  verif_check(vimp(far, (d == g) ^ 1), "distinct deltas compare equal");
  verif_check(vimp(near3(d.x, d.y, d.theta, g.x, g.y, g.theta, 1e-8), d == g), "coinciding deltas compare different");
  bool nz = bool(d);
  verif_check(vimp(near3(d.x, d.y, d.theta, 0, 0, 0, 1e-8), nz ^ 1), "zero delta is true");
  verif_check(vimp(near3(d.x, d.y, d.theta, 0, 0, 0, 2e-4) ^ 1, nz), "non-zero delta is false");
}
VERIF_ENTRY(c26_abs_less) {
  auto d = delta("dx", "dy", "dt"), g = delta("gx", "gy", "gt");
  auto ab = [](double v) { return v < 0 ? -v : v; };
  int expect = vand(ab(d.x) < ab(g.x), ab(d.y) < ab(g.y), ab(d.theta) < ab(g.theta));
  verif_check(d.is_abs_less(g) == expect, "is_abs_less is not component-wise");
}
VERIF_ENTRY(c26_sq_dist) {
  RobotPoseDelta d{verif_grid("dx", -L, L, 1.0 / 1024), verif_grid("dy", -L, L, 1.0 / 1024), verif_real("dt", -L, L)};
  verif_check(d.sq_dist() == d.x * d.x + d.y * d.y, "squared distance");
  Point2D a{verif_grid("ax", -L, L, 1.0 / 1024), verif_grid("ay", -L, L, 1.0 / 1024)}, b{a.x + d.x, a.y + d.y};
  verif_check(vnear(a.dist_sq(b), d.sq_dist(), 1e-3), "point distance");
}
VERIF_ENTRY(c26_compare) {
  const double M = 1e6;
  double a = verif_real("a", -M, M), b = verif_real("b", -M, M), c = verif_real("c", -M, M);
  bool e = are_equal(a, b);
  verif_check(are_equal(a, a), "a number differs from itself");
  verif_check(e == are_equal(b, a), "tolerant equality is not symmetric");
  double diff = a < b ? b - a : a - b;
  verif_check(vimp(diff > 1e-6 * M, e ^ 1), "numbers beyond the tolerance are equal");
  verif_check(vimp(diff <= 0.99e-7, e), "numbers within the tolerance differ");
  double mag = std::max(1.0, std::max(a < 0 ? -a : a, b < 0 ? -b : b));
  verif_check(vimp(diff > 1.01e-7 * mag, e ^ 1), "numbers beyond the relative tolerance are equal");
  verif_check(vimp(diff < 0.99e-7 * mag, e), "numbers within the relative tolerance differ");
  verif_check(vimp(a < b - 1e-9, less(a, b)), "less misses a smaller number");
  verif_check(vimp(a > b + 1e-9, less(a, b) ^ 1), "less holds for a greater number");
  verif_check(vimp(a <= b, less_or_equal(a, b)), "less_or_equal misses");
  verif_check(vimp(a - b > 1.01e-7 * mag, less_or_equal(a, b) ^ 1), "less_or_equal holds for a greater number");
  verif_check(vimp(vand(a <= b, b <= c), are_ordered(a, b, c)), "are_ordered misses ordered numbers");
  verif_check(vimp(vor(a - b > 0.2, b - c > 0.2), are_ordered(a, b, c) ^ 1), "are_ordered holds for disordered numbers");
  verif_check(vimp(vand(a < b - 1e-9, b < c - 1e-9), are_strictly_ordered(a, b, c)), "are_strictly_ordered misses ordered numbers");
  verif_check(vimp(vor(a - b > 1e-9, b - c > 1e-9), are_strictly_ordered(a, b, c) ^ 1), "are_strictly_ordered holds for disordered numbers");
}
// huge numbers of a fine grid: the tolerance is relative
VERIF_ENTRY(c26_compare_big) {
  const double M = 8589934592.0, Q = 1.0 / 262144;
  double a = verif_grid("a", -M, M, Q), b = verif_grid("b", -M, M, Q);
  bool e = are_equal(a, b);
  verif_check(e == are_equal(b, a), "tolerant equality is not symmetric");
  verif_check(e == are_equal(-a, -b), "tolerant equality depends on the sign");
  double diff = a < b ? b - a : a - b, mag = std::max(1.0, std::max(a < 0 ? -a : a, b < 0 ? -b : b));
  verif_check(vimp(diff > 1.01e-7 * mag, e ^ 1), "numbers beyond the relative tolerance are equal");
  verif_check(vimp(diff < 0.99e-7 * mag, e), "numbers within the relative tolerance differ");
}
VERIF_ENTRY(c26_compare_eps) {
  double a = verif_real("a", -L, L), b = verif_real("b", -L, L), eps = verif_real("eps", 0, 10);
  double diff = a < b ? b - a : a - b;
  verif_check(are_equal(a, b, eps) == are_equal(b, a, eps), "equality with explicit tolerance is not symmetric");
  verif_check(vimp(diff < eps - 1e-9, are_equal(a, b, eps)), "numbers within the explicit tolerance differ");
  verif_check(vimp(diff > eps + 1e-9, are_equal(a, b, eps) ^ 1), "numbers beyond the explicit tolerance are equal");
  verif_check(vimp(a < b - 1e-9, less_or_equal(a, b, eps)), "less_or_equal with tolerance misses");
  verif_check(vimp(a > b + eps + 1e-9, less_or_equal(a, b, eps) ^ 1), "less_or_equal with tolerance holds for a greater number");
}
VERIF_ENTRY(c26_bound) {
  double l = verif_real("l", -L, L), v = verif_real("v", -L, L), r = verif_real("r", -L, L);
  verif_assume(l <= r);
  double b = bound_value(l, v, r);
  verif_check(vand(l <= b, b <= r), "clamped value is out of its bounds");
  verif_check(vimp(vand(l <= v, v <= r), b == v), "a value within the bounds was changed");
  verif_check(vimp(v < l, b == l), "a small value is not moved to the lower bound");
  verif_check(vimp(v > r, b == r), "a big value is not moved to the upper bound");
}
template <unsigned N> static void ge(int i) {
  int p = ge_pow<N>(i);
  verif_check(p >= i, "power below its argument");
  verif_check(p >= 1, "power is not positive");
  verif_check(vor(p == 1, p / int(N) < i), "not the least power");
  long q = 1; int is = 0; for (int k = 0; k < 24 && q < 30000000; ++k) { is |= (q == p); q *= N; }
  verif_check(is, "not a power of the base");
}
VERIF_ENTRY(c26_ge_pow) {
  int i = verif_int("i", -5, 1000000);
  switch (verif_choose("base", 4)) { case 0: ge<2>(i); break; case 1: ge<3>(i); break; case 2: ge<4>(i); break; default: ge<10>(i); }
}
VERIF_ENTRY(c26_angles) {
  double a = verif_real("a", -1e4, 1e4);
  verif_check(vnear(rad2deg(deg2rad(a)), a, 1e-8), "degrees to radians and back");
  verif_check(vnear(deg2rad(a) * 180, a * 3.14159265358979323846, 1e-8), "degrees to radians");
}
