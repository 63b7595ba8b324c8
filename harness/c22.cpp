// C22: particle weights stay a distribution, resampling follows it, and particles stay apart.
#include "verif.h"
#include "random_stubs.h"
#include "world_stubs.h"
#include "slams/gmapping/gmapping_particle_filter.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Q = 1.0 / 64;
struct P : Particle { int id = -1; int samples = 0; void sample() override { ++samples; } };
struct Factory : ParticleFactory<P> { int made = 0; std::shared_ptr<P> create_particle() override { auto p = std::make_shared<P>(); p->id = made++; return p; } };
using Filter = ParticleFilter<P>;
static void distribution(Filter &f, int n) {
  verif_check((int)f.particles().size() == n, "the number of particles changes");
  double sum = 0; int ok = 1;
  for (auto &p : f.particles()) { sum += p->weight(); ok = vand(ok, p->weight() >= -1e-12); }
  verif_check(ok, "a weight is negative or not a number");
  verif_check(vnear(sum, 1, 1e-9), "the weights do not sum to one");
  for (size_t i = 0; i < f.particles().size(); ++i) for (size_t j = 0; j < i; ++j) verif_check(f.particles()[i] != f.particles()[j], "two entries share one particle");
}
static void heaviest(Filter &f) {
  const Filter &cf = f; const P *h = &cf.heaviest_particle(); int in = 0;
  verif_check(&f.heaviest_particle() == h, "the heaviest particle is ambiguous");
  for (auto &p : f.particles()) { in |= p.get() == h; verif_check(h->weight() >= p->weight(), "the best particle has not the greatest weight"); }
  verif_check(in, "the best particle is unknown");
}
VERIF_ENTRY(c22_new) {
  int n = 1 + verif_choose("particles", 6);
  auto &f = *new Filter(std::make_shared<Factory>(), n);
  distribution(f, n);
  for (auto &p : f.particles()) verif_check(vnear(p->weight() * n, 1, 1e-9), "new particles are not equally likely");
  heaviest(f);
}
VERIF_ENTRY(c22_normalize) {
  int n = 1 + verif_choose("particles", T ? 5 : 4);
  auto &f = *new Filter(std::make_shared<Factory>(), n);
  std::vector<double> w; double total = 0;
  for (int i = 0; i < n; ++i) { w.push_back(verif_grid("w", 0, 8, Q)); total += w[i]; f.particles()[i]->set_weight(w[i]); }
  int zero = total == 0;
  verif_assume(vor(zero, total >= Q));
  f.normalize_weights();
  if (total == 0) { distribution(f, n); return; }
  verif_check((int)f.particles().size() == n, "the number of particles changes");
  for (int i = 0; i < n; ++i) verif_check(vand(f.particles()[i]->id == i, vnear(f.particles()[i]->weight() * total, w[i], 1e-9)), "a weight is not its share of the total");
  heaviest(f);
  if (!T && n > 3) return;
  double sum = 0; for (auto &p : f.particles()) { sum += p->weight(); verif_check(p->weight() >= -1e-12, "a weight is negative or not a number"); }
  verif_check(vnear(sum * total, total, 1e-9), "the weights do not sum to one");
}
// no weights at all, or unknown ones
VERIF_ENTRY(c22_degenerate) {
  int n = 1 + verif_choose("particles", 4);
  auto &f = *new Filter(std::make_shared<Factory>(), n);
  for (auto &p : f.particles()) p->set_weight(0);
  f.normalize_weights();
  distribution(f, n);
  verif_check(!f.try_resample(), "equally likely particles are sampled anew");
  distribution(f, n);
}
// weights of a distribution given by n - 1 of them
static std::vector<double> weights(Filter &f, int n, int symbolic) {
  static const double W[][5] = {{0.5, 0.125, 0.25, 0.0625, 0.0625}, {0.0625, 0.875, 0.0625, 0, 0}, {0, 0.9375, 0, 0.03125, 0.03125}, {0.75, 0, 0, 0.25, 0}, {0.03125, 0.03125, 0.03125, 0.03125, 0.875}};
  std::vector<double> w; double rest = 1;
  if (symbolic) for (int i = 0; i + 1 < n; ++i) { w.push_back(verif_grid("w", 0, 1, Q)); rest -= w[i]; }
  else { int k = verif_choose("weights", 5); for (int i = 0; i + 1 < n; ++i) { w.push_back(W[k][i]); rest -= w[i]; } }
  verif_assume(rest >= 0);
  w.push_back(rest);
  for (int i = 0; i < n; ++i) f.particles()[i]->set_weight(w[i]);
  return w;
}
static bool resample(Filter &f, int n, const std::vector<double> &w) {
  std::vector<int> ids; for (auto &p : f.particles()) ids.push_back(p->id);
  double sq = 0; for (double v : w) sq += v * v;
  size_t d0 = verif_draws.size();
  bool done = f.try_resample();
  if (done) verif_check(sq * n > 2 - 1e-9, "resampling although the effective number of particles is not low"); // 1 / sq < n / 2
  else verif_check(sq * n < 2 + 1e-9, "no resampling although the effective number of particles is low");
  if (!done) {
    for (int i = 0; i < n; ++i) verif_check(vand(f.particles()[i]->id == ids[i], f.particles()[i]->weight() == w[i]), "particles change without resampling");
    return false;
  }
  verif_check(verif_draws.size() == d0 + n, "not one draw per particle");
  if (verif_draws.size() != d0 + n) verif_end_path();
  for (int i = 0; i < n; ++i) {
    double v = verif_draws[d0 + i].v, lo = 0; int ok = 0;
    verif_check(verif_draws[d0 + i].a == 0 && verif_draws[d0 + i].b == 1, "a draw is not uniform over the weights");
    for (int j = 0; j < n; ++j) { ok = vor(ok, vand(f.particles()[i]->id == ids[j], v >= lo - 1e-9, v <= lo + w[j] + 1e-9)); lo += w[j]; }
    verif_check(ok, "a particle is not the one whose share contains the draw");
  }
  verif_check((int)f.particles().size() == n, "the number of particles changes");
  return true;
}
VERIF_ENTRY(c22_resample) { // any draws
  int n = 2 + verif_choose("particles", 2 + T);
  auto &f = *new Filter(std::make_shared<Factory>(), n);
  auto w = weights(f, n, 0);
  if (resample(f, n, w)) distribution(f, n);
  heaviest(f);
}
VERIF_ENTRY(c22_resample_any) { // any weights and draws
  int n = 3;
  auto &f = *new Filter(std::make_shared<Factory>(), n);
  auto w = weights(f, n, 1);
  resample(f, n, w);
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) verif_check(f.particles()[i] != f.particles()[j], "two entries share one particle");
}
VERIF_ENTRY(c22_required) { // any weights
  int n = 3 + verif_choose("particles", 2 + T);
  auto &f = *new Filter(std::make_shared<Factory>(), n);
  auto w = weights(f, n, 1);
  double sq = 0; for (double v : w) sq += v * v;
  std::vector<std::shared_ptr<P>> v = f.particles();
  UniformResamling<std::shared_ptr<P>> r;
  bool req = r.resampling_is_required(v);
  if (req) verif_check(sq * n > 2 - 1e-9, "resampling although the effective number of particles is not low");
  else verif_check(sq * n < 2 + 1e-9, "no resampling although the effective number of particles is low");
}
VERIF_ENTRY(c22_again) { // a second resampling; the copies have lives of their own
  const int n = 3;
  auto &f = *new Filter(std::make_shared<Factory>(), n);
  static const double W[][3] = {{0.9375, 0, 0.0625}, {0.03125, 0.03125, 0.9375}};
  std::vector<double> w; int k = verif_choose("first", 2); for (int i = 0; i < n; ++i) { w.push_back(W[k][i]); f.particles()[i]->set_weight(W[k][i]); }
  if (!resample(f, n, w)) return;
  distribution(f, n);
  for (int i = 0; i < n; ++i) f.particles()[i]->id = 10 + i;
  for (int i = 0; i < n; ++i) verif_check(f.particles()[i]->id == 10 + i, "two entries share one particle");
  int heavy = verif_choose("heavy", n); w.assign(n, 0.03125);
  for (int i = 0; i < n; ++i) { if (i == heavy) w[i] = 0.9375; f.particles()[i]->set_weight(w[i]); }
  verif_check(resample(f, n, w), "no resampling although the effective number of particles is low");
  distribution(f, n);
}
// ---- the filter of GMapping
using Map = GmappingWorld::MapType;
struct Mark { const GridMap *map; std::vector<int> marks; double x; };
static std::vector<Mark> marked;
struct MarkAdder : GridMapScanAdder { // remembers in the map that the scan was seen
  MarkAdder() : GridMapScanAdder{std::make_shared<FakeCOE>(), std::make_shared<FakeOMQE>()} {}
  void handle_scan_point(GridMap &map, bool, double, const Segment2D &b) const override {
    std::vector<int> v;
    for (int i = 0; i < 16; ++i) if (map[{i, 1}].occupancy().prob_occ > 0.75) v.push_back(i);
    int me = (int)marked.size();
    marked.push_back({&map, v, b.beg().x});
    map.update({me, 1}, AreaOccupancyObservation{true, {1, 1}, {0, 0}, 1});
  }
};
struct Told : WorldPoseObserver, WorldMapObserver<GridMap> {
  std::vector<RobotPose> poses; std::vector<const GridMap *> maps;
  void on_pose_update(const RobotPose &p) override { poses.push_back(p); }
  void on_map_update(const GridMap &m) override { maps.push_back(&m); }
};
struct GRig { std::shared_ptr<FakeMatcher> sm; GmappingParticleFilter *f; std::shared_ptr<Told> told; };
static GRig grig(int n, double noise = 0, double least = 0.5) {
  GRig r; r.sm = std::make_shared<FakeMatcher>();
  SingleStateHypothesisLSGWProperties p;
  p.grid_map = std::make_shared<Map>(std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{4, 4, 1});
  p.gsm = r.sm; p.gmsa = std::make_shared<MarkAdder>();
  verif_uniform_q = 0.5;
  r.f = new GmappingParticleFilter(p, GMappingParams{0, noise, 0, noise, least, least, least / 2, least / 2}, n);
  r.told = std::make_shared<Told>(); r.f->subscribe_pose(r.told); r.f->subscribe_map(r.told);
  return r;
}
static TransformedLaserScan scan(const RobotPoseDelta &odom) {
  TransformedLaserScan s; s.pose_delta = odom; s.quality = 1;
  s.scan.points().push_back(ScanPoint2D::make_polar(1, 0, true));
  return s;
}
static const GmappingWorld &best(const GmappingParticleFilter &f) { return static_cast<const GmappingWorld &>(f.world()); }
static const double Far = 2;
static void told(GRig &r, size_t n) {
  verif_check(r.told->poses.size() == n && r.told->maps.size() == n, "a subscriber is not told exactly once");
  if (r.told->poses.size() != n || r.told->maps.size() != n) verif_end_path();
  verif_check(vand(same_pose(r.told->poses.back(), r.f->pose()), r.told->maps.back() == &r.f->map()), "a subscriber is not told the final pose and map");
}
// weights after the first scan; scores of any size
VERIF_ENTRY(c22_gmapping) {
  int n = 1 + verif_choose("particles", 3);
  auto r = grig(n);
  std::vector<double> s; double total = 0;
  int all0 = verif_choose("unlikely", 2), sym = n == 3 ? verif_choose("symbolic", 3) : 0; static const double S[] = {0.5, 0.75, 0.25};
  for (int i = 0; i < n; ++i) { s.push_back(all0 ? 0 : n == 3 && i != sym ? S[i] : verif_grid("score", Q, 1, Q)); total += s[i]; r.sm->answer.push_back({1.0 + i, 0, 0}); r.sm->score.push_back(s[i]); }
  RobotPoseDelta o{verif_grid("ox", 1, 2, Q), verif_grid("oy", -1, 1, Q), 0.125};
  // not far enough for resampling: 0.5 < |o|^2 is, so keep the weights apart by the scores only
  double sq = 0; for (double v : s) sq += v * v;
  verif_assume(sq * n <= 1.99 * total * total);
  auto sc = scan(o);
  r.f->handle_sensor_data(sc);
  verif_check((int)matches.size() == n, "not every particle matches its first scan");
  if ((int)matches.size() != n) return;
  for (auto &m : matches) verif_check(same_pose(m.pose, {o.x, o.y, o.theta}), "a particle does not follow odometry");
  told(r, 1);
  auto &b = best(*r.f);
  double w = b.weight(); int k = (int)verif_pick((long)std::round(b.pose().x - o.x)) - 1;
  verif_check(k >= 0 && k < n, "the best particle is unknown");
  if (k < 0 || k >= n) return;
  verif_check(vand(vnear(r.f->pose().x, o.x + 1 + k, 1e-9), vnear(r.f->pose().y, o.y, 1e-9)), "the pose is not that of the best particle");
  if (all0) { verif_check(vnear(w, 1.0 / n, 1e-9), "equally unlikely particles are not equally likely"); return; }
  verif_check(vnear(w * total, s[k], 1e-9), "the weight is not the share of the likelihood");
  for (double v : s) verif_check(s[k] >= v - 1e-9, "the best particle has not the greatest weight");
}
// resampling happens exactly when it is needed and the robot has moved enough since the last one
VERIF_ENTRY(c22_motion) {
  const int n = 3; auto r = grig(n, 0, 0); verif_fixed_draws = true;
  double w[n] = {1.0 / n, 1.0 / n, 1.0 / n}, way = 0, turned = 0;
  static const double Turn[] = {0, 0.125, -0.125}; static const char *N[] = {"x0", "x1", "x2", "x3"};
  for (int k = 0; k < 3 + T; ++k) {
    double s[n] = {1, 1, 1}, total = 0, sq = 0;
    if (verif_choose("unequal", 2)) s[1] = s[2] = 1.0 / 32;
    RobotPoseDelta o{verif_grid(N[k], -1, 1, Q), 0, Turn[verif_choose("turn", 3)]};
    r.sm->answer.resize(matches.size()); r.sm->score.resize(matches.size());
    for (int i = 0; i < n; ++i) { r.sm->answer.push_back({0, 0, 0}); r.sm->score.push_back(s[i]); total += w[i] *= s[i]; }
    for (double &v : w) { v /= total; sq += v * v; }
    way += std::abs(o.x); turned += std::abs(o.theta);
    size_t d0 = verif_draws.size(), m0 = matches.size();
    auto sc = scan(o); r.f->handle_sensor_data(sc);
    told(r, k + 1);
    verif_check(matches.size() == m0 + n, "not every particle matches a scan");
    if (matches.size() != m0 + n) return;
    int draws = 0; for (size_t i = d0; i < verif_draws.size(); ++i) draws += verif_draws[i].a == 0 && verif_draws[i].b == 1;
    int needed = 2 < n * sq, moved = turned > 0.2;
    if (!needed) verif_check(draws == 0, "a resampling that is not needed");
    else if (draws) verif_check(vor(moved, way * way >= 0.5 - 1e-9), "a resampling although the robot did not move enough");
    else verif_check(vand(!moved, way * way <= 0.5 + 1e-9), "no resampling although the effective number of particles is low");
    if (draws) { way = turned = 0; for (double &v : w) v = 1.0 / n; } // every draw falls into the first share
    verif_check(vnear(best(*r.f).weight(), std::max(w[0], w[1]), 1e-9), "the weight is not the share of the likelihood");
  }
  verif_cover("motion");
}
// lineage: after resampling every particle goes on with the pose and the map of its origin, alone
static void lineage(double turn) {
  const int n = 3; auto r = grig(n);
  static const double S[][3] = {{1, 0.03125, 0.03125}, {0.03125, 0.0625, 1}};
  auto s = S[verif_choose("scores", 2)];
  double total = 0;
  for (int i = 0; i < n; ++i) { r.sm->answer.push_back({10.0 * (i + 1), 0, 0}); r.sm->score.push_back(s[i]); total += s[i]; }
  size_t d0 = verif_draws.size(); verif_uniform_q = Q;
  auto s1 = scan({Far, 0, 0});
  r.f->handle_sensor_data(s1);
  told(r, 1);
  std::vector<double> d;
  for (size_t i = d0; i < verif_draws.size(); ++i) if (verif_draws[i].a == 0 && verif_draws[i].b == 1) d.push_back(verif_draws[i].v);
  verif_check((int)marked.size() == n, "not every particle maps its first scan");
  verif_check((int)d.size() == n, "no resampling although the effective number of particles is low");
  if ((int)d.size() != n || (int)marked.size() != n) return;
  for (int i = 0; i < n; ++i) { verif_check(marked[i].marks.empty(), "a particle finds a scan of another one in its map"); for (int j = 0; j < i; ++j) verif_check(marked[i].map != marked[j].map, "two particles share a map"); }
  // the second scan shows every particle
  for (int i = 0; i < n; ++i) { r.sm->answer.push_back({0, 0, 0}); r.sm->score.push_back(1); }
  auto s2 = scan({Far, 0, turn});
  r.f->handle_sensor_data(s2);
  told(r, 2);
  verif_check((int)matches.size() == 2 * n && (int)marked.size() == 2 * n, "the number of particles changes");
  if ((int)marked.size() != 2 * n || (int)matches.size() != 2 * n) return;
  for (int i = 0; i < n; ++i) {
    int k = (int)std::round((matches[n + i].pose.x - 2 * Far) / 10) - 1; // its origin
    verif_check(k >= 0 && k < n, "a particle is at a pose of no particle before");
    if (k < 0 || k >= n) return;
    double lo = 0; for (int j = 0; j < k; ++j) lo += s[j] / total;
    verif_check(vand(d[i] >= lo - 1e-9, d[i] <= lo + s[k] / total + 1e-9), "a particle is not the one whose share contains the draw");
    auto &m = marked[n + i];
    verif_check(vnear(m.x, matches[n + i].pose.x, 1e-9), "a scan is mapped at the pose of another particle");
    verif_check(m.marks.size() == 1 && m.marks[0] == k, "a particle does not go on with the map of its origin");
    for (int j = 0; j < i; ++j) verif_check(m.map != marked[n + j].map, "two particles share a map");
  }
}
VERIF_ENTRY(c22_lineage) { lineage(0); }
VERIF_ENTRY(c22_many) { // as many particles as no byte can count
  const int n = 300;
  auto &f = *new Filter(std::make_shared<Factory>(), n);
  distribution(f, n); heaviest(f);
  double w = verif_grid("w", 1, 8, Q);
  for (int i = 0; i < n; ++i) f.particles()[i]->set_weight(i == 280 ? w : 0.5);
  f.normalize_weights();
  double total = w + 0.5 * (n - 1);
  for (int i = 0; i < n; ++i) verif_check(vand(f.particles()[i]->id == i, vnear(f.particles()[i]->weight() * total, i == 280 ? w : 0.5, 1e-9)), "a weight is not its share of the total");
  verif_check(f.heaviest_particle().id == 280, "the best particle has not the greatest weight");
}
// the filter always has a master, a particle that matches every scan
VERIF_ENTRY(c23_master_remains) {
  const int n = 3; auto r = grig(n);
  static const double S[][3] = {{1, 0.03125, 0.03125}, {0.03125, 0.0625, 1}, {1, 1, 1}};
  auto s = S[verif_choose("scores", 3)];
  verif_uniform_q = Q;
  for (int i = 0; i < n; ++i) { r.sm->answer.push_back({0, 0, 0}); r.sm->score.push_back(s[i]); }
  for (int i = 0; i < 4 * n; ++i) { r.sm->answer.push_back({0, 0, 0}); r.sm->score.push_back(1); }
  auto far = scan({Far, 0, 0}), still = scan({0, 0, 0});
  r.f->handle_sensor_data(far);
  size_t d0 = verif_draws.size();
  r.f->handle_sensor_data(far);
  for (size_t i = d0; i < verif_draws.size(); ++i) if (verif_draws[i].a == 0 && verif_draws[i].b == 1) return; // resampled again
  size_t m0 = matches.size();
  r.f->handle_sensor_data(still);
  verif_check(matches.size() > m0, "no particle is the master");
}

// resampled particles explore on their own: all but the master with noise, none with that of another one
VERIF_ENTRY(c23_explore) {
  const int n = T ? 4 : 3; const double Sigma = 0.0625; verif_fixed_draws = false;
  auto r = grig(n, Sigma);
  static const double S[][4] = {{1, 0.03125, 0.03125, 0.03125}, {0.03125, 0.0625, 1, 0.0625}, {0.03125, 0.03125, 0.5, 0.5}};
  auto s = S[verif_choose("scores", T ? 3 : 2)];
  for (int i = 0; i < n; ++i) { r.sm->answer.push_back({0, 0, 0}); r.sm->score.push_back(s[i]); }
  for (int i = 0; i < 4 * n; ++i) { r.sm->answer.push_back({0, 0, 0}); r.sm->score.push_back(1); }
  auto s1 = scan({Far, 0, 0}), s2 = scan({Far, 0, 0}), s3 = scan({Far, 0, 0});
  size_t d0 = verif_draws.size(); verif_uniform_q = Q;
  r.f->handle_sensor_data(s1); // resamples
  int draws = 0;
  for (size_t i = d0; i < verif_draws.size(); ++i) draws += verif_draws[i].a == 0 && verif_draws[i].b == 1;
  verif_check(draws == n, "no resampling although the effective number of particles is low");
  size_t d1 = verif_draws.size();
  verif_fixed_draws = true;
  r.f->handle_sensor_data(s2);
  int noisy = 0, quiet = 0;
  for (size_t i = d1; i < verif_draws.size(); ++i) {
    auto &d = verif_draws[i];
    noisy += d.a == 0 && d.b == Sigma; quiet += d.a == 0 && d.b == 0;
    for (size_t j = d1; j < i; ++j) verif_check(d.word != verif_draws[j].word, "a particle repeats the random choices of another one");
  }
  verif_check(noisy == 3 * (n - 1), "not every particle but the master is subject to noise");
  (void)quiet; (void)s3;
  verif_cover("explored");
}
