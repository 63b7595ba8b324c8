// C12: exhaustive enumeration covers the configured window around each new pose.
#include "verif.h"
#include "random_stubs.h"
#include "core/scan_matchers/pose_enumerators.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "sm_stubs.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 16;
struct Dim { double from, to, step; };
// a window of at most n steps (an integer number of them if 'exact')
static Dim dim(const char *f, const char *w, const char *s, int n) {
  Dim d; d.from = verif_grid(f, -4, 4, Q); d.step = verif_grid(s, Q, 2, Q);
  double width = verif_grid(w, 0, 2 * n, Q);
  verif_assume(width <= n * d.step);
  d.to = d.from + width; return d;
}
static RobotPose gpose(const char *x, const char *y, const char *t) { return {verif_grid(x, -100, 100, Q), verif_grid(y, -100, 100, Q), verif_grid(t, -4, 4, Q)}; }
static int on_lattice(double o, const Dim &d, int n) { int ok = 0; for (int k = 0; k <= n; ++k) ok = vor(ok, vnear(o, d.from + k * d.step, 1e-9)); return ok; }
// the pose a covers the points from a up to the next pose
static int close(double a, double b, double step) { return vand(a - b <= 0, b - a < step); }
// runs a search to its end; poses other than the first one given must not matter
static std::vector<RobotPose> run(PoseEnumerator &pe, const RobotPose &base, int limit) {
  std::vector<RobotPose> got;
  auto other = gpose("ox", "oy", "ot");
  while (pe.has_next()) {
    verif_check((int)got.size() < limit, "the enumeration does not end");
    if ((int)got.size() >= limit) verif_end_path();
    got.push_back(pe.next(got.empty() ? base : other));
    pe.feedback(got.size() % 3 == 1);
    other = got.back();
  }
  verif_check(!pe.has_next(), "a finished enumeration continues");
  return got;
}
static void window(const std::vector<RobotPose> &got, const RobotPose &base, const Dim &x, const Dim &y, const Dim &t, int nx, int ny, int nt) {
  verif_check(!got.empty(), "no pose is visited");
  double px = verif_grid("px", -4, 4, Q), py = verif_grid("py", -4, 4, Q), pt = verif_grid("pt", -4, 4, Q);
  int inside = vand(vand(px >= x.from, px <= x.to), vand(py >= y.from, py <= y.to), vand(pt >= t.from, pt <= t.to)), covered = 0;
  std::vector<double> ox, oy, ot;
  for (auto &p : got) { ox.push_back(p.x - base.x); oy.push_back(p.y - base.y); ot.push_back(p.theta - base.theta); }
  for (size_t i = 0; i < got.size(); ++i) {
    verif_check(vand(on_lattice(ox[i], x, nx), on_lattice(oy[i], y, ny), on_lattice(ot[i], t, nt)), "a visited pose is not spaced by the steps");
    verif_check(vand(ox[i] < x.to + x.step, oy[i] < y.to + y.step, ot[i] < t.to + t.step), "a visited pose is further than a step outside the window");
    covered = vor(covered, vand(close(ox[i], px, x.step), close(oy[i], py, y.step), close(ot[i], pt, t.step)));
    for (size_t j = 0; j < i; ++j)
      verif_check(vand(vnear(ox[i], ox[j], 1.0 / 64), vnear(oy[i], oy[j], 1.0 / 64), vnear(ot[i], ot[j], 1.0 / 64)) ^ 1, "a pose is visited twice");
  }
  verif_check(vimp(inside, covered), "a part of the window is not covered");
}
VERIF_ENTRY(c12_window) {
  int NX = 4 + 2 * T, NY = 2 + T, NT = 1 + T;
  auto x = dim("fx", "wx", "sx", NX), y = dim("fy", "wy", "sy", NY), t = dim("ft", "wt", "st", NT);
  auto &pe = *new BruteForcePoseEnumerator(x.from, x.to, x.step, y.from, y.to, y.step, t.from, t.to, t.step);
  auto base = gpose("bx", "by", "bt");
  window(run(pe, base, (NX + 2) * (NY + 2) * (NT + 2)), base, x, y, t, NX, NY, NT);
}
VERIF_ENTRY(c12_window_t) { // more headings and rows
  int NX = 1 + T, NY = 2, NT = 3 + T;
  auto x = dim("fx", "wx", "sx", NX), y = dim("fy", "wy", "sy", NY), t = dim("ft", "wt", "st", NT);
  auto &pe = *new BruteForcePoseEnumerator(x.from, x.to, x.step, y.from, y.to, y.step, t.from, t.to, t.step);
  auto base = gpose("bx", "by", "bt");
  window(run(pe, base, (NX + 2) * (NY + 2) * (NT + 2)), base, x, y, t, NX, NY, NT);
}
// a search that follows another one, finished or not
VERIF_ENTRY(c12_again) {
  auto x = dim("fx", "wx", "sx", 1), y = dim("fy", "wy", "sy", 1), t = dim("ft", "wt", "st", 1);
  auto &pe = *new BruteForcePoseEnumerator(x.from, x.to, x.step, y.from, y.to, y.step, t.from, t.to, t.step);
  auto b1 = gpose("ax", "ay", "at"), b2 = gpose("bx", "by", "bt");
  int steps = verif_choose("steps", 10);
  for (int i = 0; i < steps && pe.has_next(); ++i) { pe.next(b1); if (i != steps - 1 || verif_choose("fb", 2)) pe.feedback(i % 2); }
  pe.reset();
  window(run(pe, b2, 27), b2, x, y, t, 1, 1, 1);
}
// the matcher, used for two scans
VERIF_ENTRY(c12_matcher) {
  auto x = dim("fx", "wx", "sx", 1), y = dim("fy", "wy", "sy", 1), t = dim("ft", "wt", "st", 1);
  auto spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { return i % 3 / 4.0; });
  spe->expect = 2;
  auto &sm = *new BruteForceScanMatcher(spe, x.from, x.to, x.step, y.from, y.to, y.step, t.from, t.to, t.step);
  for (int k = 0; k < 2; ++k) {
    spe->log.clear();
    auto init = k ? gpose("ax", "ay", "at") : gpose("bx", "by", "bt");
    RobotPoseDelta d;
    sm.process_scan(some_scan(2), init, some_map(), d);
    std::vector<RobotPose> got;
    for (size_t i = 1; i < spe->log.size(); ++i) got.push_back(spe->log[i].pose);
    verif_check(exact_pose(spe->log[0].pose, init), "the initial pose is not tried");
    window(got, init, x, y, t, 1, 1, 1);
  }
}
// the polar variant: all distances along every direction of a sector
static const double Dirs[] = {0, 0.5, -1, 3, 0.25};
VERIF_ENTRY(c12_polar) {
  int k = verif_choose("from", T ? 5 : 3), N = 2 + T;
  Dim a; a.from = Dirs[k]; a.step = verif_choose("sd", 2) ? 0.5 : 0.75; a.to = a.from + 0.5 * verif_choose("w", 3);
  int na = 0; while (a.from + na * a.step < a.to) ++na;
  Dim r = dim("fr", "wr", "sr", N);
  verif_assume(r.from >= 0);
  auto &pe = *new PolarCoordBruteForcePoseEnumerator(a.from, a.to, a.step, r.from, r.to, r.step);
  auto b1 = gpose("ax", "ay", "at"), base = gpose("bx", "by", "bt");
  int before = verif_choose("before", 3);
  for (int i = 0; i < before * 2 && pe.has_next(); ++i) { pe.next(b1); pe.feedback(i % 2); }
  if (before) pe.reset();
  auto got = run(pe, base, (N + 2) * (na + 2));
  // each direction of the sector with each distance exactly once
  for (int i = 0; i <= na; ++i) {
    double c = std::cos(a.from + i * a.step), s = std::sin(a.from + i * a.step);
    for (int j = 0; j <= N; ++j) {
      double d = r.from + j * r.step; int covered = 0;
      for (auto &p : got) covered = vor(covered, vand(vnear(p.x - base.x, c * d, 1e-6), vnear(p.y - base.y, s * d, 1e-6)));
      verif_check(vimp(d <= r.to, covered), "a part of the sector is not covered");
    }
  }
  for (size_t i = 0; i < got.size(); ++i) {
    verif_check(got[i].theta == base.theta, "the heading is changed");
    int ok = 0;
    for (int k = 0; k <= na; ++k) { double c = std::cos(a.from + k * a.step), s = std::sin(a.from + k * a.step);
      for (int j = 0; j <= N; ++j) { double d = r.from + j * r.step; ok = vor(ok, vand(vnear(got[i].x - base.x, c * d, 1e-6), vnear(got[i].y - base.y, s * d, 1e-6), d < r.to + r.step)); } }
    verif_check(ok, "a visited pose is not on the polar lattice");
    for (size_t j = 0; j < i; ++j)
      verif_check(vor(vand(vnear(got[i].x, got[j].x, 1e-5), vnear(got[i].y, got[j].y, 1e-5)) ^ 1, r.from < Q), "a pose is visited twice");
  }
}
// many steps
VERIF_ENTRY(c12_window_large) {
  static const int N[][3] = {{270, 0, 0}, {0, 260, 0}, {0, 0, 300}, {17, 16, 0}};
  auto &n = N[verif_choose("window", 4)];
  double s = 1.0 / 16;
  auto &pe = *new BruteForcePoseEnumerator(-1, -1 + n[0] * s, s, -2, -2 + n[1] * s, s, 0.5, 0.5 + n[2] * s, s);
  auto base = gpose("bx", "by", "bt");
  auto got = run(pe, base, (n[0] + 2) * (n[1] + 2) * (n[2] + 2));
  int want = (n[0] + 1) * (n[1] + 1) * (n[2] + 1);
  verif_check((int)got.size() == want, "the number of poses of the window");
  if ((int)got.size() != want) return;
  std::vector<int> seen(want, 0);
  for (auto &p : got) {
    double i = (p.x - base.x + 1) / s, j = (p.y - base.y + 2) / s, k = (p.theta - base.theta - 0.5) / s;
    int a = (int)verif_pick((long)(i + 0.25)), b = (int)verif_pick((long)(j + 0.25)), c = (int)verif_pick((long)(k + 0.25));
    int ok = vand(vnear(i, a, 1e-9), vnear(j, b, 1e-9), vnear(k, c, 1e-9), 0 <= a && a <= n[0] && 0 <= b && b <= n[1] && 0 <= c && c <= n[2]);
    verif_check(ok, "a visited pose is not spaced by the steps");
    if (!ok) return;
    ++seen[(a * (n[1] + 1) + b) * (n[2] + 1) + c];
  }
  int once = 1; for (int v : seen) once &= v == 1;
  verif_check(once, "a pose is visited twice or not at all");
}
