// C25, C30: parameters given through ROS and the program that plays bags.
#include "verif.h"
#include "random_stubs.h"
#include "core/geometry_utils.h"
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/grid_cell.h"
#include "core/maps/grid_map.h"
#include "core/maps/grid_map_scan_adders.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/tbm_grid_cells.h"
#include "core/maps/transferable_belief_model.h"
#include "core/particle_filter.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/states/laser_scan_grid_world.h"
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
#include "core/states/state_data.h"
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <mutex>
#include <sstream>
#include <thread>
#include "tf/tf.h"
#include "tf/tfMessage.h"
#include "tf/message_filter.h"
#include "nav_msgs/OccupancyGrid.h"
#include "sensor_msgs/LaserScan.h"
#include "rosbag/view.h"
#include "stream_stubs.h"
namespace std {
inline verif_ostream &operator<<(verif_ostream &o, const LaserScan2D &) { return o; } // unused
struct verif_mutex { void lock() {} void unlock() {} };
struct verif_thread { verif_thread() {} template <class... A> explicit verif_thread(A &&...) {} };
template <class C> struct verif_obi { verif_ostream *o; verif_obi(verif_ostream &s) : o(&s) {} verif_obi &operator*() { return *this; } verif_obi &operator++() { return *this; } verif_obi &operator++(int) { return *this; } verif_obi &operator=(char c) { o->put(c); return *this; } };
template <class C> struct iterator_traits<verif_obi<C>> { typedef output_iterator_tag iterator_category; typedef void value_type, difference_type, pointer, reference; };
}
#define mutex verif_mutex
#define thread verif_thread
#define ostreambuf_iterator verif_obi
#define main bag_main
#include "ros/lslam2D_bag_runner.cpp"
#include "ros/launch_properties_provider.h"
#undef main
#undef mutex
#undef thread
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
typedef sensor_msgs::LaserScan Msg;
static void given(const std::string &k, int kind, const std::string &t, double n) { ros::verif_params["~" + k] = {kind, t, n}; }
// any key: the parameter of exactly that name, whatever its type, or else the default
VERIF_ENTRY(c31_launch) {
  auto &p = *new LaunchPropertiesProvider;
  int n = verif_int("number", -1000, 1000); double d = verif_real("real", -1000, 1000); int f = verif_bool("flag"), df = verif_choose("default", 2);
  static const char *Text[] = {"12", "-7", "0", "3.5", "false", "true", "1", "text", ""};
  int k = verif_choose("kind", 5), t = k == 0 ? verif_choose("text", 9) : 0, other = verif_choose("others", 2);
  if (other) { given("a", 0, "99", 0); given("a/bc", 1, "", 98); ros::verif_params["a/b"] = {0, "97", 0}; }
  if (k < 4) given("a/b", k, Text[t], k == 1 ? n : k == 2 ? d : f);
  if (k == 0) {
    verif_check(p.get_str("a/b", "none") == Text[t], "a text");
    verif_check(p.get_bool("a/b", df) == !(t == 2 || t == 4), "a flag given as a text");
    if (t < 3) verif_check(p.get_int("a/b", 5) == (t == 0 ? 12 : t == 1 ? -7 : 0), "an integer given as a text");
    if (t < 4) verif_check(p.get_dbl("a/b", 5) == (t == 0 ? 12 : t == 1 ? -7 : t == 2 ? 0 : 3.5), "a number given as a text");
    if (t == 0) verif_check(p.get_uint("a/b", 5) == 12, "an unsigned integer given as a text");
  } else {
    verif_check(p.get_str("a/b", "none") == "none", "a text that is not given");
    if (k == 1) { verif_check(p.get_int("a/b", 5) == n, "an integer"); if (verif_fork(n >= 0)) verif_check(p.get_uint("a/b", 5) == (unsigned)n, "an unsigned integer"); }
    if (k == 1 || k == 2) verif_check(vnear(p.get_dbl("a/b", 5), k == 1 ? n : d, 0), "a number");
    if (k == 3) verif_check(viff(p.get_bool("a/b", df), f), "a flag");
    if (k == 4) verif_check(p.get_int("a/b", n) == n && vnear(p.get_dbl("a/b", d), d, 0) && p.get_bool("a/b", df) == (bool)df && p.get_uint("a/b", 7) == 7, "a default");
  }
  verif_check(p.get_int("c", n) == n && p.get_str("a/bcd", "x") == "x", "another key");
  p.set_property("c", "41"); p.set_property("a/b", "43");
  verif_check(p.get_int("c", 0) == 41 && p.get_str("a/b", "") == "43" && p.get_dbl("a/b", 0) == 43, "a value that is set");
  verif_cover("launch");
}
// the transforms to ignore, as documented: pairs from-to separated by colons
VERIF_ENTRY(c31_ignores) {
  auto &c = *new MapPropertiesProvider;
  int n = verif_choose("length", T ? 8 : 7); std::string s;
  for (int i = 0; i < n; ++i) s += "ab-:"[verif_choose("char", i < 3 ? 4 : 3) + (i < 3 ? 0 : 1)];
  if (n || verif_choose("set", 2)) c.set_property("in/odometry/ros/tf/ignore", s);
  auto got = tf_ignored_transforms(c);
  std::map<std::string, std::vector<std::string>> want;
  for (size_t i = 0; i < s.size();) {
    size_t j = i; while (j < s.size() && s[j] != ':') ++j;
    size_t d = i; while (d < j && s[d] != '-') ++d;
    if (d < j) want["/" + s.substr(i, d - i)].push_back("/" + s.substr(d + 1, j - d - 1));
    i = j + 1;
  }
  verif_check(got.size() == want.size(), "another number of frames");
  for (auto &w : want) verif_check(got.count(w.first) && got[w.first] == w.second, "the transforms of a frame");
  verif_cover("ignores");
}
// the documented parameters of the ROS nodes
VERIF_ENTRY(c31_ros) {
  auto &p = *new LaunchPropertiesProvider;
  int has[12]; for (int &h : has) h = 0;
  int which = verif_choose("given", 13); if (which < 12) has[which] = 1; else for (int &h : has) h = 1;
  double buf = verif_real("buffer", 0, 100), rate = verif_real("rate", 0, 100); int flt = verif_int("filter", 0, 5000), sub = verif_int("subscribers", 0, 5000), skip = verif_bool("skip"), trig = verif_bool("trig"), async = verif_bool("async");
  static const char *K[] = {"in/lscan2D/ros/topic/name", "in/odometry/ros/tf/odom_frame_id", "ros/tf/map_frame_id", "ros/tf/robot_pose_frame_id", "ros/tf/async_correction", "ros/subscribers_queue_size", "ros/tf/buffer_duration", "ros/filter_queue_size", "ros/rviz/map_publishing_rate", "ros/skip_exceeding_lsr_vals", "slam/performance/use_trig_cache", "x"};
  int kind[] = {0, 0, 0, 0, 3, 1, 2, 1, 2, 3, 3, 0}; double v[] = {0, 0, 0, 0, (double)async, (double)sub, buf, (double)flt, rate, (double)skip, (double)trig, 0};
  for (int i = 0; i < 12; ++i) if (has[i]) given(K[i], kind[i], std::string("T") + (char)('a' + i), v[i]);
  verif_check(laser_scan_2D_ros_topic_name(p) == (has[0] ? "Ta" : "/base_scan"), "the topic of the scans");
  verif_check(tf_odom_frame_id(p) == (has[1] ? "Tb" : "odom_combined"), "the frame of the odometry");
  verif_check(tf_map_frame_id() == (has[2] ? "Tc" : "map"), "the frame of the map");
  verif_check(tf_robot_pose_frame_id() == (has[3] ? "Td" : "robot_pose"), "the frame of the robot");
  verif_check(viff(is_async_correction(), has[4] && async), "asynchronous corrections");
  double gb = -1, gr = -1; int gf = -1, gs = -1;
  init_constants_for_ros(gb, gr, gf, gs);
  verif_check(gs == (has[5] ? sub : 1000) && gf == (has[7] ? flt : 1000), "the size of a queue");
  verif_check(vand(vnear(gb, has[6] ? buf : 5.0, 0), vnear(gr, has[8] ? rate : 5.0, 0)), "the duration of the buffer, the interval of maps");
  verif_check(viff(get_skip_exceeding_lsr(p), has[9] && skip), "whether scans without an obstacle are skipped");
  verif_check(viff(get_use_trig_cache(p), has[10] && trig), "whether trigonometry is cached");
  verif_cover("ros");
}
// ---------------------------------------------------------------- the program that plays bags
static bool file(const std::string &n, std::string &t) { if (n != "props") return false; t = "k=5\n"; return true; }
VERIF_ENTRY(c31_args) { // its arguments in any order
  std::verif_file = file;
  // 0 slam type, 1 bag, 2 -v, 3 -t f, 4 -m f, 5 -p f, 6 unknown flag with a value
  std::vector<std::string> a{"prog"}; int n = 1 + verif_choose("arguments", T ? 5 : 4), seen = 0, pos = 0, m[7] = {0, 0, 0, 0, 0, 0, 0};
  for (int i = 0; i < n; ++i) {
    int k = verif_choose("argument", 6);
    if (k == 0) { a.push_back(pos == 0 ? "viny" : pos == 1 ? "b.bag" : "more"); ++pos; continue; }
    ++k; if (m[k]) verif_end_path(); m[k] = 1;
    if (k == 2) a.push_back("-v");
    if (k == 3) { a.push_back("-t"); a.push_back("traj"); }
    if (k == 4) { a.push_back("-m"); a.push_back("map"); }
    if (k == 5) { a.push_back("-p"); a.push_back("props"); }
    if (k == 6) { a.push_back("-z"); a.push_back("viny2"); }
  }
  (void)seen; std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
  auto &r = *new ProgramArgs; r.init(v.data());
  verif_check(r.is_valid == (pos == 2), "whether the arguments are valid");
  if (pos > 0) verif_check(r.slam_type == "viny", "the kind of slam");
  if (pos > 1) verif_check(r.bag_fname == "b.bag", "the bag");
  verif_check(r.is_verbose == m[2], "verbosity");
  verif_check((bool)r.traj_dumper == m[3] && vfiles_nm == m[3], "the trajectory");
  if (m[3]) verif_check(vfiles[0]->name == "traj", "the file of the trajectory");
  verif_check(r.map_fname == (m[4] ? "map" : ""), "the file of the map");
  verif_check(r.props.get_int("k", 1) == (m[5] ? 5 : 1), "the properties");
  verif_cover("args");
}
// what a slam gets and says while a bag is played
struct Slam : LaserScanGridWorld {
  std::vector<TransformedLaserScan> got; UnboundedPlainGridMap m;
  Slam(const GridMapParams &p) : m{std::make_shared<MockCell>(), p} {}
  struct MockCell : GridCell { MockCell() : GridCell{Occupancy{0.5, 1}} {} std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(new MockCell(*this)); } void operator+=(const AreaOccupancyObservation &) override {} };
  const GridMap &map() const override { return m; }
  void handle_observation(TransformedLaserScan &s) override { got.push_back(s); }
};
static const char *const RN[] = {"r0", "r1", "r2", "r3"};
VERIF_ENTRY(c31_run) {
  auto slam = std::make_shared<Slam>(GridMapParams{4, 3, 1}); auto *keep = new std::shared_ptr<Slam>(slam); (void)keep;
  auto &a = *new ProgramArgs; int traj = verif_choose("trajectory", 2), map = verif_choose("map", 2);
  a.props.set_property("in/lscan2D/ros/topic/enabled", "1"); a.props.set_property("in/odometry/ros/tf/enabled", "true");
  a.props.set_property("in/lscan2D/ros/topic/name", "/s"); a.props.set_property("in/odometry/ros/tf/name", "/t"); a.props.set_property("in/odometry/ros/tf/odom_frame_id", "/o");
  a.props.set_property("in/odometry/ros/tf/ignore", "o-l2");
  int skip = verif_choose("skip", 2); a.props.set_property("ros/skip_exceeding_lsr_vals", skip ? "1" : "0");
  if (traj) a.traj_dumper = std::make_shared<RobotPoseTumTrajectoryDumper>("traj");
  if (map) a.map_fname = "map";
  const int N = 2 + T; static const double X[] = {1, 1.5, -0.25}, Y[] = {0, 2, 0.5};
  std::vector<std::shared_ptr<Msg>> ms;
  int order = verif_choose("order", 2); // transforms before or after the scans
  tf::verif_lookup = [&](const std::string &to, const std::string &from, const ros::Time &w, tf::StampedTransform &r) {
    verif_check(to == "/o" && from == "/l", "another transform");
    auto *k = tf::Transformer::verif_known;
    if (k) for (auto &t : *k) { verif_check(t.child_frame_id_ == "/l", "an ignored transform"); if (t.stamp_ == w) { r = t; return; } }
    throw tf::ExtrapolationException("Lookup would require extrapolation into the future");
  };
  for (int pass = 0; pass < 2; ++pass) for (int i = 0; i < N; ++i) {
    if (pass == order) {
      auto m = std::make_shared<Msg>(); m->header.frame_id = "/l"; m->header.stamp = ros::Time(20 + i, 500000000);
      m->angle_min = 0; m->angle_increment = 0.5; m->angle_max = 0.5; m->range_min = 0.5; m->range_max = 20;
      m->ranges.push_back(verif_grid(RN[i], 1, 19, 1.0 / 16)); m->ranges.push_back(30);
      ms.push_back(m); rosbag::verif_bag.push_back({"/s", m});
    } else {
      auto m = std::make_shared<tf::tfMessage>();
      for (int k = 0; k < 2; ++k) { geometry_msgs::TransformStamped t; t.header.frame_id = "/o"; t.child_frame_id = k ? "/l" : "/l2"; t.header.stamp = ros::Time(20 + i, 500000000); t.transform.translation.x = X[i]; t.transform.translation.y = Y[i]; t.transform.rotation.w = 1; m->transforms.push_back(t); }
      rosbag::verif_bag.push_back({"/t", m});
    }
  }
  run_slam(slam, a);
  verif_check((int)slam->got.size() == N, "a scan is not handled exactly once");
  if ((int)slam->got.size() != N) return;
  for (int i = 0; i < N; ++i) {
    auto &s = slam->got[i]; auto &pts = s.scan.points();
    verif_check((int)pts.size() == 2 - skip, "the points of a scan"); if ((int)pts.size() != 2 - skip) return;
    verif_check(vnear(pts[0].range(), ms[i]->ranges[0], 1e-9), "the scans are handled in another order");
    if (i) verif_check(vand(vnear(s.pose_delta.x, X[i] - X[i - 1], 1e-9), vnear(s.pose_delta.y, Y[i] - Y[i - 1], 1e-9)), "the movement of the robot");
  }
  a.traj_dumper.reset();
  verif_check(vfiles_nm == traj + map, "what is written");
  for (int i = 0; i < vfiles_nm && i < 2; ++i) {
    auto &f = *vfiles[i]; int lines = 0; for (int k = 0; k < f.n; ++k) lines += f.data[k] == '\n';
    if (f.name == "traj") { verif_check(traj && lines == N && f.data[0] == '2' && f.data[1] == '0', "the trajectory has not a line per scan"); for (int k = 0, l = 0; k < f.n && l + 1 < N; ++k) if (f.data[k] == '\n') { ++l; verif_check(f.data[k + 1] == '2' && f.data[k + 2] == '0' + l && f.data[k + 3] == '.' && f.data[k + 4] == '5', "the time of a line"); } }
    else verif_check(map && f.name == "map" && f.n > 2 && f.data[0] == 'P' && f.data[1] == '5', "the map that is written");
  }
  verif_cover("run");
}
