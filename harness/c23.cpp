// C23: a GMapping particle follows odometry in its own heading and integrates scans after enough motion only.
#include "verif.h"
#include "random_stubs.h"
#include "world_stubs.h"
#include "slams/gmapping/gmapping_world.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 64;
static double absd(double v) { return std::abs(v); }
// the parameters tell the kinds of variates apart
struct Rig { std::shared_ptr<FakeMatcher> sm; GmappingWorld *w; GridMap *map; double mxy, sxy, mth, sth, lo, hi, lot, hit; };
static Rig rig(double mth, double hi, double hit) {
  Rig r; r.sm = std::make_shared<FakeMatcher>();
  r.mxy = 0.0625; r.sxy = 0.125; r.mth = mth; r.sth = 0; r.lo = 0.5; r.hi = hi; r.lot = 0.25; r.hit = hit;
  SingleStateHypothesisLSGWProperties p;
  p.grid_map = std::make_shared<UnboundedPlainGridMap>(std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{3, 3, 1});
  p.gsm = r.sm; p.gmsa = std::make_shared<FakeAdder>();
  r.map = p.grid_map.get();
  r.w = new GmappingWorld(p, GMappingParams{r.mxy, r.sxy, r.mth, r.sth, r.lo, r.hi, r.lot, r.hit});
  return r;
}
// draws since i of the given parameters
static std::vector<double> draws(size_t i, double a, double b) { std::vector<double> v; for (; i < verif_draws.size(); ++i) if (verif_draws[i].a == a && verif_draws[i].b == b) v.push_back(verif_draws[i].v); return v; }
static TransformedLaserScan scan(int n, const RobotPoseDelta &odom) {
  TransformedLaserScan s; s.pose_delta = odom; s.quality = 0.5;
  for (int i = 0; i < n; ++i) s.scan.points().push_back(ScanPoint2D::make_polar(1 + i, 0.75 * i - 0.5, true));
  return s;
}
struct Thr { double sq, th; };
static Thr threshold(size_t from, const Rig &r, int master) {
  if (master) return {0, 0};
  auto xy = draws(from, r.lo, r.hi), th = draws(from, r.lot, r.hit);
  verif_check(xy.size() == 2 && th.size() == 1, "the thresholds are not drawn anew");
  if (xy.size() != 2 || th.size() != 1) verif_end_path();
  return {xy[0] * xy[0] + xy[1] * xy[1], th[0]};
}
static const double Th[] = {0, 0.3125, -0.5};
// master: from which scan on the particle is the master
static void run(int steps, Rig r, int master, int turns, int weights) {
  GmappingWorld &w = *r.w;
  RobotPose pose{0, 0, 0}, raw{0, 0, 0}; RobotPoseDelta since{0, 0, 0};
  double weight = weights ? verif_grid("weight", 0, 1, Q) : 0.5; w.set_weight(weight);
  Thr thr = threshold(0, r, 0); int first = 1;
  for (int k = 0; k < steps; ++k) {
    if (k == master) { w.mark_master(); verif_check(w.is_master(), "not the master"); }
    int is_master = k >= master;
    double c = std::cos(pose.theta - raw.theta), s = std::sin(pose.theta - raw.theta);
    RobotPoseDelta o{verif_grid("ox", -1, 1, Q), k == 0 || T ? verif_grid("oy", -1, 1, Q) : 0.125, turns ? Th[verif_choose("turn", 3)] : 0};
    double dx = c * o.x - s * o.y, dy = s * o.x + c * o.y;
    pose = {pose.x + dx, pose.y + dy, pose.theta + o.theta}; raw = {raw.x + o.x, raw.y + o.y, raw.theta + o.theta};
    since = {since.x + absd(dx), since.y + absd(dy), since.theta + absd(o.theta)};
    int found = verif_choose("correction", 2);
    RobotPoseDelta corr{found ? 0.25 : 0, 0, found ? 0.5 : 0};
    int kind = verif_choose("likelihood", 3);
    double score = kind == 0 ? verif_grid("score", Q, 1, Q) : kind == 1 ? 0 : ScanProbabilityEstimator::unknown_probability();
    size_t m0 = matches.size(), b0 = beams.size(), d0 = verif_draws.size();
    r.sm->answer.resize(m0, corr); r.sm->score.resize(m0, 0);
    r.sm->answer.push_back(corr); r.sm->score.push_back(score);
    auto sc = scan(2, o);
    w.handle_sensor_data(sc);
    double sq = since.x * since.x + since.y * since.y;
    int matched = matches.size() != m0;
    verif_check(matches.size() <= m0 + 1, "a scan is matched more than once");
    if (!matched) {
      verif_check(vand(sq < thr.sq + 1e-9, since.theta < thr.th + 1e-9), "a scan is ignored although the particle moved enough");
      verif_check(beams.size() == b0, "a scan that is not matched is mapped");
      verif_check(w.weight() == weight, "the weight changes without matching");
      verif_check(same_pose(w.pose(), pose), "the pose does not follow odometry");
      continue;
    }
    verif_check(vor(sq >= thr.sq - 1e-9, since.theta >= thr.th - 1e-9), "a scan is matched although the particle did not move enough");
    if (!first) {
      if (!is_master) {
        auto nxy = draws(d0, r.mxy, r.sxy), nth = draws(d0, r.mth, r.sth);
        verif_check(nxy.size() == 2 && nth.size() == 1, "the guess is not drawn once");
        if (nxy.size() != 2 || nth.size() != 1) verif_end_path();
        pose = {pose.x + nxy[0], pose.y + nxy[1], pose.theta + r.mth};
      } else for (size_t i = d0; i < verif_draws.size(); ++i) verif_check(verif_draws[i].a == 0 && verif_draws[i].b == 0, "the master is moved by noise");
    }
    auto &m = matches.back();
    verif_check(same_pose(m.pose, pose), "a scan is not matched at the predicted pose");
    verif_check(m.map == r.map && m.points == 2, "a scan is not matched with the map of the particle");
    pose = {pose.x + corr.x, pose.y + corr.y, pose.theta + corr.theta};
    verif_check(same_pose(w.pose(), pose), "the pose is not moved by odometry, guess and correction");
    int map = vor(first, kind == 0);
    verif_check(beams.size() == b0 || beams.size() == b0 + 2, "not every beam is mapped once");
    verif_check(map == (int)(beams.size() != b0), "not exactly the likely scans and the first one are mapped");
    for (size_t i = b0; i < beams.size(); ++i) verif_check(vand(beams[i].map == r.map, vnear(beams[i].bx, pose.x, 1e-9), vnear(beams[i].by, pose.y, 1e-9)), "a scan is not mapped at the corrected pose");
    if (beams.size() == b0 + 2) for (int i = 0; i < 2; ++i) {
      double a = pose.theta + 0.75 * i - 0.5;
      verif_check(vand(vnear(beams[b0 + i].ex, pose.x + (1 + i) * std::cos(a), 1e-6), vnear(beams[b0 + i].ey, pose.y + (1 + i) * std::sin(a), 1e-6)), "a beam does not end at its point");
    }
    if (kind != 2) weight = weight * score;
    first = 0; since = {0, 0, 0};
    verif_check(vnear(w.weight(), weight, 1e-9), "the weight is not multiplied by the likelihood");
    thr = threshold(d0, r, is_master);
  }
}
VERIF_ENTRY(c23_straight) { run(2, rig(0.125, 0.75, 0.5), 9, 0, 1); }
VERIF_ENTRY(c23_turns) { run(2 + T, rig(0.125, 0.75, 0.5), 9, 1, 0); }
VERIF_ENTRY(c23_often) { run(3, rig(-0.25, 0.75, 0.5), 9, 0, 0); }
VERIF_ENTRY(c23_master) { run(3, rig(0.125, 0.75, 0.5), verif_choose("master", 2), 0, 0); }
// a scan whose likelihood is not known does not spoil the weight
VERIF_ENTRY(c23_unknown) {
  auto r = rig(0, 0.75, 0.5); double weight = verif_grid("weight", 0, 1, Q);
  r.w->set_weight(weight);
  r.sm->answer.push_back(RobotPoseDelta{0, 0, 0}); r.sm->score.push_back(ScanProbabilityEstimator::unknown_probability());
  auto s = scan(verif_choose("points", 2), {4, 0, 0});
  r.w->handle_sensor_data(s);
  verif_check(matches.size() == 1, "a scan is ignored although the particle moved enough");
  verif_check(r.w->weight() == weight, "an unknown likelihood spoils the weight of a particle");
}
// odometry in the heading of the particle
VERIF_ENTRY(c23_heading) {
  auto r = rig(0.125, 0.75, 0.5);
  static const double H[] = {0.5, -1, 3, 1.5707963267948966};
  double h = H[verif_choose("heading", 4)];
  r.sm->answer.push_back(RobotPoseDelta{0, 0, h}); r.sm->score.push_back(1);
  auto s = scan(1, {2, 0, 0});
  r.w->handle_sensor_data(s);
  RobotPose p{2, 0, h};
  for (int i = 0; i < 2; ++i) {
    RobotPoseDelta o{verif_grid("x", -4, 4, Q), verif_grid("y", -4, 4, Q), verif_grid("t", -3, 3, Q)};
    r.w->update_robot_pose(o);
    p = {p.x + std::cos(h) * o.x - std::sin(h) * o.y, p.y + std::sin(h) * o.x + std::cos(h) * o.y, p.theta + o.theta};
    verif_check(same_pose(r.w->pose(), p, 1e-8), "odometry is not rotated into the heading of the particle");
  }
}
// many small motions
VERIF_ENTRY(c23_many) {
  auto r = rig(0.125, 0.75, 0.5); GmappingWorld &w = *r.w; const int n = 400;
  r.sm->answer.resize(2, RobotPoseDelta{0, 0, 0}); r.sm->score.resize(2, 0.5);
  int turn = verif_choose("turn", 2), back = verif_choose("back", 2); double x = 0, step = 1.0 / 1024, sum = 0;
  auto thr = threshold(0, r, 0);
  for (int k = 0; k < n; ++k) {
    double d = back && k % 2 ? -step : step; RobotPoseDelta o{turn ? 0 : d, 0, turn ? d / 2 : 0}; x += d; sum += step;
    auto sc = scan(1, o); w.handle_sensor_data(sc);
  }
  verif_check(matches.empty(), "a scan is matched although the particle did not move enough");
  double last = verif_grid("last", 0, 1, 1.0 / 1024);
  auto sc = scan(1, {turn ? 0 : last, 0, turn ? last / 2 : 0}); w.handle_sensor_data(sc);
  sum += last;
  verif_check(vimp(!matches.empty(), turn ? sum / 2 >= thr.th - 1e-9 : sum * sum >= thr.sq - 1e-9), "a scan is matched although the particle did not move enough");
  verif_check(vimp(matches.empty(), turn ? sum / 2 < thr.th + 1e-9 : sum * sum < thr.sq + 1e-9), "a scan is ignored although the particle moved enough");
  if (matches.empty()) verif_check(same_pose(w.pose(), RobotPose{turn ? 0 : x + last, 0, turn ? (x + last) / 2 : 0}), "the pose does not follow odometry");
}
