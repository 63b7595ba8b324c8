// C32: situations recorded during a run are replayed as they were.
#include "verif.h"
#include "random_stubs.h"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <queue>
#include <set>
#include <list>
#include <tuple>
#include <array>
#include <unordered_map>
#include <vector>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <mutex>
#include <sstream>
#include <thread>
#include "tf/tf.h"
#include "tf/tfMessage.h"
#include "tf/message_filter.h"
#include "nav_msgs/OccupancyGrid.h"
#include "sensor_msgs/LaserScan.h"
#include "rosbag/view.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
// Streams that keep numbers as they are (a number written as text is taken to be read back as it was).
struct Tok { int number; double v; char c; };
struct TFile { std::string name; std::vector<Tok> t; };
static std::vector<TFile *> tfiles;
static TFile *tfile(const std::string &n) { for (auto f : tfiles) if (f->name == n) return f; return nullptr; }
static int space(char c) { return c == ' ' || c == '\n' || c == '\t'; }
namespace std {
struct verif_to {
  TFile *f; verif_to(TFile *f = nullptr) : f{f} {}
  verif_to &put(char c) { if (f) f->t.push_back({0, 0, c}); return *this; }
  verif_to &num(double v) { if (f) f->t.push_back({1, v, 0}); return *this; }
  verif_to &write(const char *s, long n) { for (long i = 0; i < n; ++i) put(s[i]); return *this; }
  verif_to &operator<<(char c) { return put(c); }
  verif_to &operator<<(const char *s) { while (*s) put(*s++); return *this; }
  verif_to &operator<<(const string &s) { return write(s.data(), s.size()); }
  verif_to &operator<<(double v) { return num(v); }
  verif_to &operator<<(int v) { return num(v); }
  verif_to &operator<<(unsigned v) { return num(v); }
  verif_to &operator<<(long v) { return num(v); }
  verif_to &operator<<(unsigned long v) { return num(v); }
  verif_to &operator<<(bool v) { return num(v ? 1 : 0); }
  verif_to &operator<<(const _Setw &) { return *this; }
  verif_to &operator<<(const _Setfill<char> &) { return *this; }
  verif_to &operator<<(const _Setprecision &) { return *this; }
  verif_to &operator<<(ios_base &(*)(ios_base &)) { return *this; }
  verif_to &operator<<(basic_ostream<char> &(*)(basic_ostream<char> &)) { return put('\n'); }
  verif_to &flush() { return *this; }
  bool good() const { return true; }
  void close() { f = nullptr; }
};
struct verif_tof : verif_to {
  verif_tof(const string &n, ios::openmode = ios::out) { f = new TFile; f->name = n; tfiles.push_back(f); }
  verif_tof(verif_tof &&o) : verif_to{o.f} { o.f = nullptr; }
};
struct verif_ti {
  TFile *f; size_t pos = 0; bool is_eof = false, is_fail = false;
  verif_ti(TFile *f = nullptr) : f{f} {}
  bool at_end() const { return !f || pos >= f->t.size(); }
  bool number(double &v) { // a number stands apart from the one before
    if (is_fail) return false;
    int apart = pos == 0;
    while (!at_end() && !f->t[pos].number && space(f->t[pos].c)) { ++pos; apart = 1; }
    if (at_end() || !f->t[pos].number || !apart) { is_fail = true; v = 0; return false; }
    v = f->t[pos++].v; if (at_end()) is_eof = true;
    return true;
  }
  verif_ti &operator>>(double &v) { double d = 0; number(d); v = d; return *this; }
  verif_ti &operator>>(int &v) { double d = 0; number(d); v = (int)d; return *this; }
  verif_ti &operator>>(unsigned long &v) { double d = 0; number(d); v = (unsigned long)d; return *this; }
  verif_ti &operator>>(bool &v) { double d = 0; number(d); v = d != 0; return *this; }
  bool good() const { return !is_eof && !is_fail; }
  bool eof() const { return is_eof; }
  bool fail() const { return is_fail; }
  explicit operator bool() const { return !is_fail; }
  bool operator!() const { return is_fail; }
};
inline verif_ti &getline(verif_ti &is, string &s, char delim = '\n') {
  s.clear(); size_t got = 0;
  if (!is.good()) { is.is_fail = true; return is; }
  while (true) {
    if (is.at_end()) { is.is_eof = true; if (!got) is.is_fail = true; break; }
    char c = is.f->t[is.pos++].c; ++got; if (c == delim) break; s += c;
  }
  return is;
}
struct verif_tif : verif_ti {
  verif_tif(const string &n, ios::openmode = ios::in) { f = tfile(n); is_fail = !f; }
  verif_tif(verif_tif &&o) = default;
  bool is_open() const { return f; }
  void close() { f = nullptr; }
};
struct verif_tss : verif_ti { verif_tss() {} explicit verif_tss(const string &s) { f = new TFile; for (char c : s) f->t.push_back({0, 0, c}); } string str() const { string s; if (f) for (auto &t : f->t) s += t.c; return s; } };
template <class C> struct verif_tobi { verif_to *o; verif_tobi(verif_to &s) : o(&s) {} verif_tobi &operator*() { return *this; } verif_tobi &operator++() { return *this; } verif_tobi &operator++(int) { return *this; } verif_tobi &operator=(char c) { o->put(c); return *this; } };
template <class C> struct iterator_traits<verif_tobi<C>> { typedef output_iterator_tag iterator_category; typedef void value_type, difference_type, pointer, reference; };
template <class C> struct verif_tibi {
  verif_ti *s; verif_tibi() : s{nullptr} {} verif_tibi(verif_ti &i) : s{&i} {}
  bool end() const { return !s || s->at_end(); }
  bool operator==(const verif_tibi &o) const { return end() == o.end(); } bool operator!=(const verif_tibi &o) const { return end() != o.end(); }
  char operator*() const { return s->f->t[s->pos].c; } verif_tibi &operator++() { ++s->pos; return *this; }
};
template <class C> struct iterator_traits<verif_tibi<C>> { typedef input_iterator_tag iterator_category; typedef char value_type; typedef long difference_type; typedef const char *pointer; typedef char reference; };
template <class C> struct verif_tii { // skips white space
  verif_ti *s; C c; verif_tii() : s{nullptr} {} verif_tii(verif_ti &i) : s{&i} { ++*this; }
  bool operator==(const verif_tii &o) const { return s == o.s; } bool operator!=(const verif_tii &o) const { return s != o.s; }
  C operator*() const { return c; } verif_tii &operator++() { while (s && !s->at_end() && space(s->f->t[s->pos].c)) ++s->pos; if (s && s->at_end()) s = nullptr; if (s) c = s->f->t[s->pos++].c; return *this; }
};
template <class C> struct iterator_traits<verif_tii<C>> { typedef input_iterator_tag iterator_category; typedef C value_type; typedef long difference_type; typedef const C *pointer; typedef C reference; };
static TFile verif_console; static verif_to verif_tout{&verif_console};
static verif_to verif_none;
struct verif_mutex { void lock() {} void unlock() {} };
struct verif_thread { verif_thread() {} template <class... A> explicit verif_thread(A &&...) {} };
}
#define ostream verif_to
#define ofstream verif_tof
#define istream verif_ti
#define ifstream verif_tif
#define stringstream verif_tss
#define istringstream verif_tss
#define cout verif_tout
#define cerr verif_none
#define clog verif_none
#define mutex verif_mutex
#define thread verif_thread
#include "core/geometry_utils.h"
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/grid_cell.h"
#include "core/maps/grid_map.h"
#include "core/maps/grid_map_scan_adders.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/tbm_grid_cells.h"
#include "core/maps/transferable_belief_model.h"
#include "core/particle_filter.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/states/laser_scan_grid_world.h"
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
#include "core/states/state_data.h"
#define ostreambuf_iterator verif_tobi
#define istreambuf_iterator verif_tibi
#define istream_iterator verif_tii
#define main bag_main
#include "ros/lslam2D_bag_runner.cpp"
#undef main
#define main sm_main
#define print_usage sm_print_usage
#include "utils/sm_runner.cpp"
#undef main

static const char *R[] = {"r0", "r1", "r2", "r3"}, *A[] = {"a0", "a1", "a2", "a3"}, *O[] = {"o0", "o1", "o2", "o3"};
static LaserScan2D scan_of(int n) { LaserScan2D s; for (int i = 0; i < n; ++i) s.points().push_back(ScanPoint2D::make_polar(verif_real(R[i], -100, 100), verif_real(A[i], -7, 7), verif_choose(O[i], 2))); return s; }
// a scan written as text, followed by whatever, is read back point by point
VERIF_ENTRY(c32_scan) {
  auto s = scan_of(verif_choose("n", 4 + T));
  { std::ofstream o{"a"}; o << s; if (verif_choose("more", 2)) o << 5.0; o.close(); }
  LaserScan2D b; if (verif_choose("used", 2)) b.points().push_back(ScanPoint2D::make_polar(1, 1, true));
  std::ifstream i{"a"}; i >> b;
  verif_check(i.fail() == 0, "the scan cannot be read");
  verif_check(b.points().size() == s.points().size(), "the number of points"); if (b.points().size() != s.points().size()) return;
  for (size_t k = 0; k < s.points().size(); ++k) {
    auto &p = s.points()[k], &q = b.points()[k];
    verif_check(p.is_occupied() == q.is_occupied(), "an obstacle is read back as free or the other way round");
    verif_check(vand(p.range() == q.range(), p.angle() == q.angle()), "a point is read back elsewhere");
  }
  verif_cover("read");
}
struct Slam : LaserScanGridWorld {
  GridMap *m; RobotPose p;
  Slam(GridMap *m, const RobotPose &p) : m{m}, p{p} {}
  const GridMap &map() const override { return *m; }
  const RobotPose &pose() const override { return p; }
  void handle_observation(TransformedLaserScan &) override {}
};
static void text(const char *name, const std::string &s) { auto *f = new TFile; f->name = name; for (char c : s) f->t.push_back({0, 0, c}); tfiles.push_back(f); }
static std::string config(int map, int matcher, int skip, int kind, int wide = 0) {
  static const char *Map[] = {"unbounded_plain", "plain"}, *Sm[] = {"idle", "BF", "HC", "BF_M3RSM"}, *Skip[] = {"0", "1", "2"}, *Cell[] = {"mean_probability", "affine_quality_merge", "tbm_consistent"};
  return std::string("slam/map/width_in_meters=") + (wide ? "10" : "4") + ("\nslam/map/height_in_meters=3\nslam/map/meters_per_cell=1\nslam/mapping/grid/type=") + Map[map] + "\nslam/mapping/grid/area/type=" + Cell[kind] +
    "\nslam/scmtch/type=" + Sm[matcher] + "\nslam/scmtch/spe/type=wmpp\nslam/scmtch/spe/wmpp/weighting/type=even\nslam/scmtch/spe/wmpp/sp_skip_rate=" + Skip[skip] +
    "\nslam/scmtch/BF/x/from=-0.5\nslam/scmtch/BF/x/to=0.5\nslam/scmtch/BF/x/step=0.5\nslam/scmtch/BF/y/from=-0.5\nslam/scmtch/BF/y/to=0\nslam/scmtch/BF/y/step=0.5\nslam/scmtch/BF/t/from=0\nslam/scmtch/BF/t/to=0\nslam/scmtch/BF/t/step=0.5"
    "\nslam/scmtch/HC/distortion/translation=0.5\nslam/scmtch/HC/distortion/rotation=0.25\nslam/scmtch/HC/distortion/failed_attempts_limit=1"
    "\nslam/scmtch/BF_M3RSM/limit/x_translation=0.5\nslam/scmtch/BF_M3RSM/limit/y_translation=0.5\nslam/scmtch/BF_M3RSM/limit/rotation=0.25\nslam/scmtch/BF_M3RSM/accuracy/rotation=0.25\nslam/scmtch/BF_M3RSM/accuracy/translation=0.5\n";
}
static const char *PN[] = {"p0", "p1", "p2", "p3"};
// the situation during a run, and the program that replays it
static void replay(int map, int matcher, int skip, int kind) {
  text("cfg", config(map, matcher, skip, kind));
  auto &props = *new FilePropertiesProvider; props.append_file_content("cfg");
  auto m = init_grid_map(props); auto *keep = new std::shared_ptr<GridMap>(m); (void)keep;
  using C = RegularSquaresGrid::Coord;
  C at[] = {{1, 0}, {1, 1}, {-1, 0}, {0, 1}};
  for (int i = 0; i < 2; ++i) m->update(at[i], AreaOccupancyObservation{true, Occupancy{matcher == 3 ? (verif_choose(PN[i], 2) ? 0.875 : 0.25) : verif_grid(PN[i], 0, 1, 1.0 / 64), 0.75}, Point2D{0, 0}, 0.5});
  m->update(at[2], AreaOccupancyObservation{true, Occupancy{0.875, 0.75}, Point2D{0, 0}, 0.5});
  RobotPose p{verif_choose("px", 2) ? 0.25 : -0.75, 0.375, 0};
  LaserScan2D s; static const double Rr[] = {1, 1.25, 1, 0.75}, Aa[] = {0, 0.75, 3.0, 1.5};
  int n = 3; for (int i = 0; i < n; ++i) s.points().push_back(ScanPoint2D::make_polar(Rr[i], Aa[i], i != 1 || verif_choose("hit", 2)));
  auto slam = std::make_shared<Slam>(m.get(), p); auto *keeps = new std::shared_ptr<Slam>(slam); (void)keeps;
  dump_state("7", slam, s);
  RobotPoseDelta d{0, 0, 0}; auto sm = init_scan_matcher(props); auto *keepm = new std::shared_ptr<GridScanMatcher>(sm); (void)keepm;
  TransformedLaserScan ts{{}, s, 1};
  double want = sm->process_scan(ts, p, *m, d);
  std::verif_console.t.clear();
  const char *argv[] = {"sm_runner", "cfg", "7.pose2D", "7.map", "7.scan2D", nullptr};
  int rc = sm_main(5, const_cast<char **>(argv));
  verif_check(rc == 0, "the program fails");
  std::vector<double> v; for (auto &t : std::verif_console.t) if (t.number) v.push_back(t.v);
  verif_check(v.size() >= 4, "the correction is not reported"); if (v.size() < 4) return;
  size_t o = v.size() - 4;
  verif_check(vnear(v[o + 3], want, 1e-9), "the probability is not that of the recorded situation");
  verif_check(vand(vnear(v[o], d.x, 1e-9), vnear(v[o + 1], d.y, 1e-9), vnear(v[o + 2], d.theta, 1e-9)), "the correction is not that of the recorded situation");
  verif_cover("replayed");
}
// (bounded and tiled maps keep no state)
VERIF_ENTRY(c32_idle) { replay(0, 0, verif_choose("skip", 3), verif_choose("cell", 3)); }
VERIF_ENTRY(c32_search) { replay(0, 1 + verif_choose("matcher", 2), verif_choose("skip", 2 + T), verif_choose("cell", 1 + T)); }
VERIF_ENTRY(c32_skip) { replay(0, 1 + verif_choose("matcher", 2), 2, 0); }
VERIF_ENTRY(c32_levels) { replay(0, 3, 0, 0); }
// what is dumped is what is set up again: pose, scan and map, whatever the map has grown to
VERIF_ENTRY(c32_state) {
  int kind = verif_choose("cell", 3);
  text("cfg", config(0, 0, 0, kind, verif_choose("wide", 2)));
  auto &props = *new FilePropertiesProvider; props.append_file_content("cfg");
  auto m = init_grid_map(props); auto *keep = new std::shared_ptr<GridMap>(m); (void)keep;
  using C = RegularSquaresGrid::Coord;
  static const C Far[] = {{0, 0}, {4, -1}, {-5, 3}, {1, 6}};
  C at[] = {{1, 0}, Far[verif_choose("far", 4)], {-1, 0}};
  for (int i = 0; i < 3; ++i) m->update(at[i], AreaOccupancyObservation{i != 2, Occupancy{i < 2 ? (kind == 2 ? 0.625 + 0.125 * i : verif_grid(PN[i], 0, 1, 1.0 / 64)) : 0.125, 0.75}, Point2D{0, 0}, 0.5});
  RobotPose p{verif_real("x", -1000, 1000), verif_real("y", -1000, 1000), verif_real("theta", -7, 7)};
  auto s = scan_of(verif_choose("n", 3));
  auto slam = std::make_shared<Slam>(m.get(), p); auto *keeps = new std::shared_ptr<Slam>(slam); (void)keeps;
  dump_state("id", slam, s);
  auto q = setup_pose2D("id.pose2D");
  verif_check(vand(p.x == q.x, p.y == q.y, p.theta == q.theta), "the pose");
  auto b = setup_laser_scan2D("id.scan2D");
  verif_check(b.points().size() == s.points().size(), "the number of points"); if (b.points().size() != s.points().size()) return;
  for (size_t k = 0; k < s.points().size(); ++k) verif_check(vand(s.points()[k].range() == b.points()[k].range(), s.points()[k].angle() == b.points()[k].angle(), s.points()[k].is_occupied() == b.points()[k].is_occupied()), "a point of the scan");
  auto m2 = setup_map(props, "id.map"); auto *keep2 = new std::shared_ptr<GridMap>(m2); (void)keep2;
  verif_check(m->width() == m2->width() && m->height() == m2->height() && m->scale() == m2->scale() && m->origin() == m2->origin(), "the extent of the map");
  if (m->width() != m2->width() || m->height() != m2->height()) return;
  auto o = m->origin();
  for (int x = -o.x; x < m->width() - o.x; ++x) for (int y = -o.y; y < m->height() - o.y; ++y) {
    auto &a = (*m)[C{x, y}], &c = (*m2)[C{x, y}];
    verif_check(a.is_unknown() == c.is_unknown(), "an unknown cell of the map");
    verif_check(vand((double)a.occupancy() == (double)c.occupancy(), a.occupancy().estimation_quality == c.occupancy().estimation_quality), "a cell of the map");
  }
  verif_cover("set up");
}
