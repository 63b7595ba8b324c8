// C13: local pose searches end within their limits and refine as configured.
#include "verif.h"
#include "random_stubs.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "sm_stubs.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 16;
static RobotPose gpose(const char *x, const char *y, const char *t) { return {verif_grid(x, -100, 100, Q), verif_grid(y, -100, 100, Q), verif_grid(t, -4, 4, Q)}; }
static double sel(int c, double a, double b) { return c ? a : b; }
static RobotPose sel(int c, const RobotPose &a, const RobotPose &b) { return {sel(c, a.x, b.x), sel(c, a.y, b.y), sel(c, a.theta, b.theta)}; }
// one round of hill climbing: both directions of every dimension, once each
static void round_is(const std::vector<RobotPose> &r, const RobotPose &base, double lin, double ang, const char *what) {
  int n[6] = {0, 0, 0, 0, 0, 0};
  for (auto &p : r) {
    double x = p.x - base.x, y = p.y - base.y, t = p.theta - base.theta;
    double want[6][3] = {{lin, 0, 0}, {-lin, 0, 0}, {0, lin, 0}, {0, -lin, 0}, {0, 0, ang}, {0, 0, -ang}};
    int any = 0;
    for (int k = 0; k < 6; ++k) { int h = vand(vnear(x, want[k][0], 1e-9), vnear(y, want[k][1], 1e-9), vnear(t, want[k][2], 1e-9)); n[k] += h; any = vor(any, h); }
    verif_check(any, what);
  }
  if (r.size() == 6) for (int k = 0; k < 6; ++k) verif_check(n[k] == 1, "a direction is tried twice or not at all");
}
// Follows a search with any accept / reject answers in the first rounds (none accepted later).
static void climb(PoseEnumerator &pe, RobotPose best, unsigned limit, double lin, double ang, int free_rounds) {
  double l = lin, a = ang; unsigned failed = 0; int rounds = 0;
  while (true) {
    std::vector<RobotPose> r; RobotPose base = best; int any = 0;
    verif_check(viff(pe.has_next(), failed < limit) | (failed >= limit), "the search stops before its limit");
    for (int i = 0; i < 6 && pe.has_next(); ++i) {
      auto p = pe.next(best);
      int ok = rounds < free_rounds ? verif_bool("ok") : 0;
      pe.feedback(ok);
      r.push_back(p); best = sel(ok, p, best); any = vor(any, ok);
    }
    if (failed < limit) {
      verif_check(r.size() == 6, "a round is cut short");
      round_is(r, base, l, a, rounds == 0 ? "a candidate of the first round is not a step of the configured size from the given pose" : "a candidate is not a step of the current size from the best pose");
    } else { // the limit is known to be reached at the end of this round at the latest
      round_is(r, base, l, a, "a candidate is not a step of the current size from the best pose");
      verif_check(r.size() < 6 || !pe.has_next(), "the search continues beyond its limit");
      break;
    }
    ++rounds;
    if (!verif_fork(any)) { ++failed; l *= 0.5; a *= 0.5; }
  }
}
using HC = FailedRoundsLimitedPoseEnumerator<Distorsion1DPoseEnumerator>;
VERIF_ENTRY(c13_hill_climbing) {
  double lin = verif_grid("lin", Q, 2, Q), ang = verif_grid("ang", Q, 2, Q);
  unsigned limit = verif_choose("limit", 3 + T) + 1;
  climb(*new HC(limit, lin, ang), gpose("x", "y", "t"), limit, lin, ang, 3 + 2 * T);
}
VERIF_ENTRY(c13_hill_climbing_again) { // after another, possibly unfinished, search
  double lin = verif_grid("lin", Q, 2, Q), ang = verif_grid("ang", Q, 2, Q);
  unsigned limit = verif_choose("limit", 2) + 1;
  auto &pe = *new HC(limit, lin, ang);
  auto b = gpose("ax", "ay", "at");
  int n = verif_choose("steps", 14 + 8 * T), good = verif_choose("good", 3);
  for (int i = 0; i < n && pe.has_next(); ++i) { pe.next(b); if (i != n - 1 || verif_choose("fb", 2)) pe.feedback(i == good); }
  pe.reset();
  climb(pe, gpose("x", "y", "t"), limit, lin, ang, 2);
}
// the matcher: aligned with the scan or not, two scans
VERIF_ENTRY(c13_hill_climbing_matcher) {
  double lin = verif_grid("lin", Q, 2, Q), ang = verif_grid("ang", Q, 2, Q);
  unsigned limit = verif_choose("limit", 2) + 1; int better = verif_choose("better", 8), frame = verif_choose("frame", 2);
  auto spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { return i == better ? 0.75 : 0.5; });
  spe->expect = 2;
  auto &sm = *new HillClimbingScanMatcher(spe, limit, lin, ang, frame);
  for (int k = 0; k < 2; ++k) {
    spe->log.clear();
    auto init = k ? gpose("ax", "ay", "at") : gpose("x", "y", "t");
    RobotPoseDelta d;
    sm.process_scan(some_scan(2), init, some_map(), d);
    size_t n = spe->log.size() - 1, rounds = limit + (better > 0);
    verif_check(n >= 6 * rounds - 5 * (better > 0) - 5, "the search stops before its limit");
    verif_check(n < 6 * (rounds + 1), "the search continues beyond its limit");
    RobotPose base = init; double l = lin;
    for (size_t r = 0; r < rounds && (r + 1) * 6 <= n; ++r) {
      int hit = better > int(r * 6) && better <= int(r * 6 + 6);
      double got = 0;
      for (int i = 0; i < 6; ++i) { auto &p = spe->log[1 + r * 6 + i].pose; double x = p.x - base.x, y = p.y - base.y, t = p.theta - base.theta; got += x * x + y * y + t * t; }
      if (!frame) { double h = l / lin, want = 4 * l * l + 2 * (ang * h) * (ang * h); verif_check(vnear(got, want, 1e-6), "the steps of a round do not have the current size"); }
      if (hit) base = spe->log[better].pose; else l *= 0.5;
    }
  }
}
// Monte-Carlo: every candidate is a draw around the best pose with the current dispersion
static void gauss(PoseEnumerator &pe, RobotPose best, double lin, double ang, unsigned max_fail, unsigned max_poses) {
  unsigned poses = 0, fails = 0; double l = lin, a = ang;
  while (true) {
    int more = pe.has_next();
    if (!more) break;
    verif_check(vand(poses < max_poses, fails < max_fail), "the search continues beyond its limit");
    if (poses >= max_poses || fails >= max_fail) return;
    size_t d0 = verif_draws.size();
    auto p = pe.next(best);
    double x = p.x - best.x, y = p.y - best.y, t = p.theta - best.theta;
    std::vector<VerifDraw> dr(verif_draws.begin() + d0, verif_draws.end());
    verif_check(dr.size() == 3, "a candidate is not drawn per dimension");
    if (dr.size() != 3) return;
    int perm = 0;
    const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (auto &q : P) perm = vor(perm, vand(vand(vnear(x, dr[q[0]].v, 1e-9), vnear(y, dr[q[1]].v, 1e-9), vnear(t, dr[q[2]].v, 1e-9)), vand(vnear(dr[q[0]].b, l, 1e-12), vnear(dr[q[1]].b, l, 1e-12), vnear(dr[q[2]].b, a, 1e-12)), vand(dr[0].a == 0, dr[1].a == 0, dr[2].a == 0)));
    verif_check(perm, "a candidate is not drawn around the best pose with the current dispersion");
    int ok = verif_choose("ok", 2);
    pe.feedback(ok);
    ++poses;
    // a success after more than a third of the allowed failures narrows the search
    if (ok) { best = p; if (fails > max_fail / 3) { fails = 0; l *= 0.5; a *= 0.5; } } else ++fails;
  }
  verif_check(vor(poses >= max_poses, fails >= max_fail), "the search stops before its limit");
}
VERIF_ENTRY(c13_monte_carlo) {
  double lin = verif_choose("lin", 2) ? 0.5 : 2, ang = 0.25;
  unsigned mf = verif_choose("mf", 3) * 2 + 1, mp = verif_choose("mp", 2) ? 8 + 2 * T : 3;
  auto &pe = *new GaussianPoseEnumerator(7, lin, ang, mf, mp);
  gauss(pe, gpose("x", "y", "t"), lin, ang, mf, mp);
}
VERIF_ENTRY(c13_monte_carlo_again) {
  double lin = 0.5, ang = 0.25;
  unsigned mf = verif_choose("mf", 2) * 2 + 1, mp = 3;
  auto &pe = *new GaussianPoseEnumerator(7, lin, ang, mf, mp);
  auto b = gpose("ax", "ay", "at");
  for (int i = verif_choose("steps", 4); i > 0 && pe.has_next(); --i) { pe.next(b); pe.feedback(verif_choose("fb", 2)); }
  pe.reset();
  gauss(pe, gpose("x", "y", "t"), lin, ang, mf, mp);
}
// the fixed hill climbing: at most the configured number of moves, never worse than the start
VERIF_ENTRY(c13_fixed_improving) { // every pose tried is better than the ones before
  unsigned limit = verif_choose("limit", 3);
  auto spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { verif_check(i <= int(limit * 11), "the search continues beyond its limit"); if (i > int(limit * 11)) verif_end_path(); return 0.25 + i / 256.0; });
  spe->expect = 2;
  auto &sm = *new HillClimbingSMFixed(spe, limit);
  RobotPoseDelta d; auto init = gpose("x", "y", "t");
  for (int k = 0; k < 2; ++k) {
    spe->log.clear();
    double r = sm.process_scan(some_scan(2), init, some_map(), d);
    verif_check(r >= 0.25, "the result is worse than the initial pose");
    if (limit) verif_check(spe->log.size() > 1, "no candidate is tried");
  }
}
static const char *SN[] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14", "s15", "s16", "s17", "s18", "s19", "s20", "s21", "s22", "s23", "s24"};
VERIF_ENTRY(c13_fixed) { // any scores for the first moves, then no improvement
  const int moves = 1;
  auto spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { return i == 0 ? 0.5 : i <= 11 * moves ? verif_grid(SN[i], 0, 1, 1.0 / 64) : 0.0; });
  spe->expect = 2;
  auto &sm = *new HillClimbingSMFixed(spe, 3);
  RobotPoseDelta d; auto init = gpose("x", "y", "t");
  double r = sm.process_scan(some_scan(2), init, some_map(), d);
  verif_check(spe->log.size() <= 1 + 11 * 3, "the search continues beyond its limit");
  { // the first move is looked for both ways along every axis, with one and the same step each way
    verif_check(spe->log.size() >= 7, "the first round is cut short");
    int n[6] = {0, 0, 0, 0, 0, 0};
    double step[3] = {0, 0, 0};
    for (int k = 1; k < 7; ++k) {
      auto &p = spe->log[k].pose; double v[3] = {p.x - init.x, p.y - init.y, p.theta - init.theta};
      int moved = 0;
      for (int j = 0; j < 3; ++j) {
        int up = v[j] > 1e-6, down = v[j] < -1e-6;
        n[2 * j] += up; n[2 * j + 1] += down; moved += vor(up, down); step[j] += v[j];
      }
      verif_check(moved == 1, "a candidate is not a move along one axis");
    }
    for (int j = 0; j < 6; ++j) verif_check(n[j] == 1, "a direction is tried twice or not at all");
    for (int j = 0; j < 3; ++j) verif_check(vnear(step[j], 0, 1e-6), "the steps back and forth differ");
  }
  verif_check(r >= 0.5, "the result is worse than the initial pose");
  RobotPose res = init + d; int attained = 0;
  for (auto &t : spe->log) attained = vor(attained, vand(vnear(t.score, r, 1e-9), same_pose(res, t.pose)));
  verif_check(attained, "the correction does not lead to a pose with the returned score");
}
// limits beyond what a byte holds
VERIF_ENTRY(c13_many) {
  auto best = RobotPose{0, 0, 0};
  if (verif_choose("kind", 2)) {
    auto &pe = *new HC(300, 1, 0.5); int n = 0, good = verif_choose("good", 3) * 301;
    while (pe.has_next() && n < 3000) { pe.next(best); pe.feedback(++n == good); }
    verif_check(n > 6 * (299 + (good > 0)) && n <= 6 * (301 + (good > 0)), "the search does not end at its limit");
  } else {
    verif_fixed_draws = true;
    unsigned mf = verif_choose("mf", 2) ? 300 : 1000, n = 0;
    auto &pe = *new GaussianPoseEnumerator(7, 0.5, 0.25, mf, 500);
    while (pe.has_next() && n < 1001) { pe.next(best); pe.feedback(0); ++n; }
    verif_check(n == (mf < 500 ? mf : 500), "the search does not end at its limit");
  }
}
