// C17: the angle histogram accounts for the direction of every pair of consecutive points.
#include "verif.h"
#include "core/features/angle_histogram.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 16;
static const int Res[] = {20, 6, 4, 1, 3, 10};
typedef LaserScan2D::Points Points;
struct D { double x, y; };
static double sel(int c, double a, double b) { return c ? a : b; }
// the direction d belongs to bin b of n (a rounding error away from a border both bins are fine)
static int in_bin(const D &d, int b, int n) {
  const double eps = 1e-6; // far below the distance of the points, far above rounding
  double y = sel(d.y < 0, -d.y, d.y), x = sel(d.y < 0, -d.x, d.x);
  double f = b * M_PI / n, t = (b + 1) * M_PI / n;
  double cf = std::cos(f), sf = std::sin(f), ct = std::cos(t), st = std::sin(t);
  int in = vand(cf * y - sf * x >= -eps, ct * y - st * x <= eps);
  int flat = vand(y <= eps, y >= 0);
  if (b == 0 || b == n - 1) in = vor(in, flat);
  return in;
}

// checks the histogram h of the scan whose points differ by d[i]
static void check(AngleHistogram &h, const Points &pts, const std::vector<D> &d, int n) {
  unsigned sum = 0;
  for (int b = 0; b < n; ++b) {
    unsigned c = h[b]; sum += c;
    int lo = 0, hi = 0; // pairs that must, and that may, be counted in b
    for (auto &e : d) {
      int in = in_bin(e, b, n), other = 0;
      for (int k = 0; k < n; ++k) if (k != b) other = vor(other, in_bin(e, k, n));
      hi += in; lo += vand(in, other ^ 1);
    }
    verif_check(vand((int)c >= lo, (int)c <= hi), "a bin does not count the pairs of its directions");
  }
  verif_check(sum == d.size(), "a pair of points is not counted exactly once");
  verif_check(h.value(pts, 0) == pts.size(), "the value of the first point");
}
static void check_values(AngleHistogram &h, const Points &pts, const std::vector<D> &d, int n) {
  for (size_t i = 1; i < pts.size(); ++i) {
    unsigned v = h.value(pts, i); int ok = 0;
    for (int b = 0; b < n; ++b) ok = vor(ok, vand(in_bin(d[i - 1], b, n), h[b] == v));
    verif_check(vand(ok, v >= 1), "a point does not report the bin of its direction");
  }
}
static ScanPoint2D pt(double x, double y) { return ScanPoint2D::make_cartesian({x, y}, true); }
static Points &fill(LaserScan2D &s, const std::vector<D> &d, double x, double y) {
  auto &p = s.points(); p.push_back(pt(x, y));
  for (auto &e : d) { x += e.x; y += e.y; p.push_back(pt(x, y)); }
  return p;
}
// a direction off the axes or along one; its main coordinate is away from zero
static D dir(double m) {
  double a = T ? verif_grid("main", Q, m, Q) : m / 4, b = verif_grid("other", -m, m, Q);
  switch (verif_choose("dir", 4)) {
  case 0: return {b, a};
  case 1: return {b, -a};
  case 2: return {a, b};
  default: return {-a, b};
  }
}
// any direction
VERIF_ENTRY(c17_direction) {
  int n = Res[verif_choose("resolution", T ? 6 : 2)];
  D d = dir(4);
  auto &s = *new LaserScan2D();
  auto &p = fill(s, {d}, verif_grid("x", -8, 8, Q), verif_grid("y", -8, 8, Q));
  auto &h = *new AngleHistogram(n);
  h.reset(s);
  check(h, p, {d}, n);
  check_values(h, p, {d}, n);
  double a = h.major_direction();
  int m = h.max_i();
  verif_check(vand(in_bin(d, m, n), h[m] == 1), "the major direction is not the one of the pair");
  verif_check(vand(a >= m * M_PI / n - 1e-6, a <= (m + 1) * M_PI / n + 1e-6), "the major direction is outside of its bin");
}
// directions next to the axes
VERIF_ENTRY(c17_axis) {
  static const int R[] = {20, 3, 6, 12, 1, 7};
  int n = R[verif_choose("resolution", T ? 6 : 4)], kind = verif_choose("kind", 4);
  double big = verif_grid("big", Q, 4, Q), tiny = verif_real("tiny", 1e-12, 1e-9);
  int pos = verif_choose("positive", 2);
  if (kind & 1) big = -big;
  if (!pos) tiny = -tiny;
  D d; if (kind & 2) d = D{tiny, big}; else d = D{big, tiny};
  auto &s = *new LaserScan2D();
  auto &p = fill(s, {d}, 0, 0);
  auto &h = *new AngleHistogram(n);
  h.reset(s);
  check(h, p, {d}, n);
  check_values(h, p, {d}, n);
}
// several pairs, and a histogram that has been used for another scan
VERIF_ENTRY(c17_scan) {
  int n = verif_choose("resolution", 2) ? 4 : 2, used = verif_choose("used", 2), k = 3;
  auto &h = *new AngleHistogram(n);
  if (used) { auto &o = *new LaserScan2D(); fill(o, {D{1, 0}, D{-2, 1}, D{0, 3}, D{1, 1}, D{-1, 0.25}}, 0, 0); h.reset(o); }
  static const D F[] = {{1, 0}, {-2, 1}, {0, -3}, {1, 1}, {-1, -0.25}, {-0.5, 0}};
  int at = verif_choose("symbolic", k);
  std::vector<D> d;
  for (int i = 0; i < k; ++i) d.push_back(i == at ? dir(4) : F[verif_choose("fixed", T ? 6 : 3) + (T ? 0 : i)]);
  auto &s = *new LaserScan2D();
  auto &p = fill(s, d, 0, 0);
  h.reset(s);
  check(h, p, d, n);
  check_values(h, p, d, n);
}
// a scan of polar points
VERIF_ENTRY(c17_polar) {
  int n = verif_choose("resolution", 2) ? 20 : 4;
  static const double A[] = {-0.75, 0, 0.5, 1.75};
  auto &s = *new LaserScan2D(); auto &p = s.points();
  int from = verif_choose("from", 3), sym = verif_choose("symbolic", 2);
  std::vector<D> d, c;
  for (int i = 0; i < 2; ++i) {
    double a = A[from + i], r = i == sym ? verif_grid("r", 1, 8, Q) : 2;
    p.push_back(ScanPoint2D::make_polar(r, a, true));
    c.push_back(D{r * std::cos(a), r * std::sin(a)});
  }
  d.push_back(D{c[1].x - c[0].x, c[1].y - c[0].y});
  auto &h = *new AngleHistogram(n);
  h.reset(s);
  check(h, p, d, n);
  check_values(h, p, d, n);
}
// neighbours very close to or very far from each other
VERIF_ENTRY(c17_close) {
  static const double S[] = {1.0 / (1 << 30), 1.0 / (1 << 24) / (1 << 20), 1 << 20};
  int n = Res[T ? verif_choose("resolution", 6) : 1]; double s = S[verif_choose("size", T ? 3 : 2)];
  D d = dir(4);
  auto &sc = *new LaserScan2D();
  auto &p = fill(sc, {D{d.x * s, d.y * s}}, 0, 0);
  auto &h = *new AngleHistogram(n);
  h.reset(sc);
  check(h, p, {d}, n);
  check_values(h, p, {d}, n);
}
// scans of less than two points, or none of another length, after another scan
VERIF_ENTRY(c17_short) {
  int n = verif_choose("resolution", 2) ? 4 : 20, k = verif_choose("points", 4), again = verif_choose("again", 2);
  auto &h = *new AngleHistogram(n);
  auto &o = *new LaserScan2D(); fill(o, {D{1, 0}, D{-2, 1}, dir(2), D{0, 3}}, 0, 0); h.reset(o);
  auto &s = *new LaserScan2D();
  std::vector<D> d;
  if (k) { for (int i = 1; i < k; ++i) d.push_back(i == 1 ? D{1, 1} : D{-3, 0.5}); fill(s, d, verif_grid("x", -4, 4, Q), 0); }
  h.reset(s);
  if (again) { auto &e = *new LaserScan2D(); h.reset(e); h.reset(s); }
  if (k) { check(h, s.points(), d, n); check_values(h, s.points(), d, n); }
  else for (int b = 0; b < n; ++b) verif_check(h[b] == 0, "a bin of an empty scan counts a pair");
}
// long scans
VERIF_ENTRY(c17_many) {
  int n = 4; const int N = T ? 1000 : 300;
  std::vector<D> d;
  for (int i = 0; i < N; ++i) d.push_back(i % 9 ? D{0.25, 0.5} : D{-0.5, 0.0625});
  d.push_back({1, verif_grid("other", -4, 4, Q)});
  auto &s = *new LaserScan2D(); auto &p = fill(s, d, 0, 0);
  auto &h = *new AngleHistogram(n);
  h.reset(s);
  unsigned steep = 0, flat = 0;
  for (auto &e : d) { steep += vand(e.x == 0.25, e.y == 0.5); flat += vand(e.x == -0.5, e.y == 0.0625); }
  unsigned sum = h[0] + h[1] + h[2] + h[3];
  verif_check(sum == d.size(), "a pair of points is not counted exactly once");
  verif_check(vand((int)h[1] >= (int)steep, (int)h[1] <= (int)steep + 1), "a bin of many directions");
  verif_check(vand((int)h[3] >= (int)flat, (int)h[3] <= (int)flat + 1), "a bin of many directions");
  verif_check(h.value(p, 0) == p.size(), "the value of the first point");
  verif_check(h.value(p, 2) == h[1], "a point does not report the bin of its direction");
}
VERIF_ENTRY(c17_fine) { // many bins
  const int n = 720; std::vector<D> d;
  for (int i = 0; i < 24; ++i) { double a = (7.5 * i + 3.6 + 0.01 * (i % 3)) * 3.14159265358979 / 180; d.push_back({std::cos(a), std::sin(a)}); d.push_back({-std::cos(a), -std::sin(a)}); }
  d.push_back({1, verif_grid("other", 0.5, 0.515625, 1.0 / 1024)});
  auto &s = *new LaserScan2D(); auto &p = fill(s, d, 0.5, 0);
  auto &h = *new AngleHistogram(n);
  h.reset(s);
  unsigned sum = 0; for (int b = 0; b < n; ++b) sum += h[b];
  verif_check(sum == d.size(), "a pair of points is not counted exactly once");
  for (int i = 0; i < 24; ++i) {
    int b = (int)((7.5 * i + 3.6 + 0.01 * (i % 3)) * n / 180);
    verif_check(h[b] >= 2, "a bin does not count the pairs of its directions");
    verif_check(vand(h.value(p, 2 * i + 1) == h[b], h.value(p, 2 * i + 2) == h[b]), "a point does not report the bin of its direction");
  }
}
