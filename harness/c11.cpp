// C11: the pose found by enumeration matching is the best of the poses tried.
#include "verif.h"
#include "random_stubs.h"
#include "core/scan_matchers/pose_enumeration_scan_matcher.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "sm_stubs.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const char *SN[] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14", "s15", "s16", "s17", "s18", "s19"};
static const char *XN[] = {"x0", "x1", "x2", "x3", "x4", "x5", "x6"}, *YN[] = {"y0", "y1", "y2", "y3", "y4", "y5", "y6"}, *TN[] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6"};
static RobotPose pose(int i) { return {verif_real(XN[i], -100, 100), verif_real(YN[i], -100, 100), verif_real(TN[i], -4, 4)}; }
// candidates are fixed in advance
struct ListPE : PoseEnumerator {
  std::vector<RobotPose> list; size_t i = 0; std::vector<RobotPose> given; std::vector<int> fb; int resets = 0;
  bool has_next() const override { return i < list.size(); }
  RobotPose next(const RobotPose &p) override { given.push_back(p); return list[i++]; }
  void reset() override { i = 0; ++resets; given.clear(); fb.clear(); }
  void feedback(bool ok) override { fb.push_back(ok); }
};
struct Call { int kind; RobotPose pose; double score; size_t pts; const void *map; };
struct Obs : GridScanMatcherObserver {
  std::vector<Call> &log;
  Obs(std::vector<Call> &l) : log(l) {}
  void on_matching_start(const RobotPose &p, const TransformedLaserScan &s, const GridMap &m) override { log.push_back({0, p, 0, s.scan.points().size(), &m}); }
  void on_scan_test(const RobotPose &p, const LaserScan2D &s, double v) override { log.push_back({1, p, v, s.points().size(), nullptr}); }
  void on_pose_update(const RobotPose &p, const LaserScan2D &s, double v) override { log.push_back({2, p, v, s.points().size(), nullptr}); }
  void on_matching_end(const RobotPose &p, const LaserScan2D &s, double v) override { log.push_back({3, p, v, s.points().size(), nullptr}); }
};
static void best_of(const std::vector<Tried> &log, const RobotPose &init, const RobotPoseDelta &d, double r) {
  int attained = 0;
  RobotPose res = init + d;
  for (auto &t : log) { verif_check(r >= t.score, "a tried pose has a higher score than the returned one"); attained = vor(attained, vand(t.score == r, same_pose(res, t.pose))); }
  verif_check(attained, "the correction does not lead to a pose with the returned score");
}
static const double NaN = std::numeric_limits<double>::quiet_NaN();
VERIF_ENTRY(c11_contract) {
  int n = verif_choose("n", T ? 6 : 4);
  auto pe = std::make_shared<ListPE>();
  for (int i = 0; i < n; ++i) pe->list.push_back(pose(i + 1));
  int nan_at = n ? verif_choose("nan", n + 1) : 0; // this candidate cannot be scored
  auto spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { return i && i == nan_at ? NaN : verif_real(SN[i], 0, 1); });
  spe->drop = 1; spe->expect = 2;
  auto &sm = *new PoseEnumerationScanMatcher(spe, pe);
  std::vector<Call> la, lb, lc, ld;
  auto a = std::make_shared<Obs>(la), b = std::make_shared<Obs>(lb), c = std::make_shared<Obs>(lc), d = std::make_shared<Obs>(ld);
  sm.subscribe(b); sm.subscribe(a); sm.subscribe(c); sm.subscribe(d);
  // a dead subscription before or behind the one removed
  switch (verif_choose("order", 3)) {
    case 0: sm.unsubscribe(b); c.reset(); break;
    case 1: c.reset(); sm.unsubscribe(b); break;
    default: b.reset(); sm.unsubscribe(c); break;
  }
  auto init = pose(0); auto scan = some_scan(3); auto &map = some_map();
  RobotPoseDelta delta{7, 7, 7};
  double r = sm.process_scan(scan, init, map, delta);
  verif_check(spe->filtered == 1 && spe->filter_map == &map, "the scan is not filtered for the map");
  verif_check(exact_pose(spe->filter_pose, init), "the scan is filtered for another pose");
  verif_check(spe->bad_scan == 0, "the scan scored is not the filtered one");
  verif_check(spe->log.size() == size_t(n) + 1, "not every candidate is scored once");
  verif_check(exact_pose(spe->log[0].pose, init), "the initial pose is not tried first");
  for (int i = 0; i < n; ++i) verif_check(exact_pose(spe->log[i + 1].pose, pe->list[i]), "another pose than the candidate is scored");
  std::vector<Tried> numbers;
  for (int i = 0; i <= n; ++i) if (i == 0 || i != nan_at) numbers.push_back(spe->log[i]);
  best_of(numbers, init, delta, r);
  // what the observers and the enumerator are told
  verif_check(lb.empty(), "an unsubscribed observer is told");
  verif_check(lc.empty(), "a dead observer is told");
  verif_check(la.size() == ld.size(), "two subscribers are told different things");
  double best = spe->log[0].score; RobotPose bp = init;
  size_t k = 0;
  auto next = [&](int kind) -> Call { verif_check(k < la.size(), "an observer is told too little"); verif_check(vand(la[k].kind == kind, ld[k].kind == kind), "an observer is told another thing than what happened"); return la[k++]; };
  Call s = next(0); verif_check(vand(exact_pose(s.pose, init), s.map == (const void *)&map, s.pts == 3), "observers are told another start");
  verif_check(pe->given.size() == size_t(n) && pe->fb.size() == size_t(n), "the enumerator is not asked and answered once per candidate");
  for (int i = 0; i <= n; ++i) {
    double v = spe->log[i].score; bool nan = i && i == nan_at;
    if (i) verif_check(exact_pose(pe->given[i - 1], bp), "the next candidate is not derived from the best pose so far");
    Call t = next(1);
    verif_check(vand(exact_pose(t.pose, spe->log[i].pose), t.pts == 2, nan ? std::isnan(t.score) : t.score == v), "observers are told another candidate");
    bool better = i == 0 || (!nan && best < v);
    if (i) verif_check(pe->fb[i - 1] == better, "wrong feedback to the enumerator");
    if (!better) continue;
    best = v; bp = spe->log[i].pose;
    Call u = next(2);
    verif_check(vand(exact_pose(u.pose, bp), u.score == best, u.pts == 2), "observers are told another improvement");
  }
  Call e = next(3);
  verif_check(vand(same_pose(e.pose, RobotPose{delta}), e.score == r, e.pts == 2), "observers are told another result");
  verif_check(k == la.size(), "an observer is told too much");
  verif_observe_d("r", r);
}
// a second scan and subscriptions changed in between
VERIF_ENTRY(c11_repeat) {
  auto pe = std::make_shared<ListPE>();
  pe->list.push_back(pose(1)); pe->list.push_back(pose(2));
  auto spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { return verif_real(SN[i], 0, 1); });
  spe->expect = 2;
  auto &sm = *new PoseEnumerationScanMatcher(spe, pe);
  std::vector<Call> la, lb;
  auto a = std::make_shared<Obs>(la), b = std::make_shared<Obs>(lb);
  sm.subscribe(a);
  auto &map = some_map();
  RobotPoseDelta d1, d2{3, 3, 3}; auto i1 = pose(0), i2 = pose(3);
  double r1 = sm.process_scan(some_scan(2), i1, map, d1);
  auto first = spe->log; spe->log.clear();
  size_t told = la.size();
  verif_check(told > 0 && la.back().kind == 3, "the end of the first search is not told");
  int what = verif_choose("what", 3);
  if (what == 0) sm.unsubscribe(a); else if (what == 1) a.reset();
  sm.subscribe(b);
  if (verif_choose("reset", 2)) sm.reset_state();
  if (verif_choose("other", 2)) { // another scoring function from now on
    spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { return 2.0; }); spe->expect = 2;
    sm.set_scan_probability_estimator(spe);
    verif_check(sm.scan_probability_estimator() == spe, "the scoring function is not replaced");
  }
  spe->score = [&](int i, const RobotPose &) { return verif_real(SN[i + 4], 0, 1); };
  double r2 = sm.process_scan(some_scan(2), i2, map, d2);
  best_of(first, i1, d1, r1);
  verif_check(spe->log.size() == 3, "the second search does not try every candidate");
  best_of(spe->log, i2, d2, r2);
  verif_check((la.size() > told) == (what == 2), "a former subscriber is told, or a current one is not");
  verif_check(lb.size() >= 5 && lb[0].kind == 0 && lb.back().kind == 3, "a new subscriber is not told");
}
// the same for the enumerators in use
static void with(GridScanMatcher &sm, std::shared_ptr<ScoreSPE> spe) {
  auto init = pose(0); RobotPoseDelta d{7, 7, 7};
  double r = sm.process_scan(some_scan(2), init, some_map(), d);
  verif_check(spe->log.size() >= 1, "the initial pose is not tried");
  verif_check(same_pose(spe->log[0].pose, init), "the initial pose is not tried first");
  best_of(spe->log, init, d, r);
}
VERIF_ENTRY(c11_brute_force) {
  auto spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { return i < 20 ? verif_real(SN[i], 0, 1) : 0.25; }); spe->expect = 2;
  with(*new BruteForceScanMatcher(spe, -0.5, 0.5, 1, 0, 0.5, 0.5, 0, T ? 0.25 : 0, 0.25), spe);
}
VERIF_ENTRY(c11_hill_climbing) {
  auto spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { return i < (T ? 10 : 7) ? verif_real(SN[i], 0, 1) : 0; }); spe->expect = 2;
  with(*new HillClimbingScanMatcher(spe, 1 + T, 0.5, 0.25), spe);
}
VERIF_ENTRY(c11_monte_carlo) {
  auto spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { return i < 20 ? verif_real(SN[i], 0, 1) : 0.25; }); spe->expect = 2;
  with(*new MonteCarloScanMatcher(spe, 7, 0.5, 0.25, 3, T ? 7 : 5), spe);
}
VERIF_ENTRY(c11_idle) {
  auto spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { return verif_real(SN[i], 0, 1); });
  RobotPoseDelta d{7, 7, 7};
  NoActionScanMatcher sm{spe};
  double r = sm.process_scan(some_scan(2), pose(0), some_map(), d);
  verif_check(vand(d.x == 0, d.y == 0, d.theta == 0), "the idle matcher moves the pose");
  verif_check(vand(r > 0, r <= 1), "the idle matcher returns no probability");
}
// long searches
VERIF_ENTRY(c11_many) {
  const int n = 600; static const int At[] = {7, 255, 256, 511, 600}; int at = At[verif_choose("best", 5)];
  auto pe = std::make_shared<ListPE>();
  for (int i = 1; i <= n; ++i) pe->list.push_back(RobotPose{0.25 * i, -0.125 * i, 0.001 * i});
  auto spe = std::make_shared<ScoreSPE>([&](int i, const RobotPose &) { return i == at ? verif_real("s0", 0, 1) : i == 300 ? 0.5 : 0.25 + i / 65536.0; });
  spe->expect = 2;
  auto &sm = *new PoseEnumerationScanMatcher(spe, pe);
  std::vector<Call> la; auto a = std::make_shared<Obs>(la); sm.subscribe(a);
  auto init = pose(0); RobotPoseDelta d{7, 7, 7};
  double r = sm.process_scan(some_scan(2), init, some_map(), d);
  verif_check(spe->log.size() == size_t(n) + 1, "not every candidate is scored once");
  best_of(spe->log, init, d, r);
  size_t tests = 0, ends = 0; for (auto &c : la) { tests += c.kind == 1; ends += c.kind == 3; }
  verif_check(tests == size_t(n) + 1 && ends == 1 && la[0].kind == 0 && la.back().kind == 3, "observers are told another search");
}
