// C31: the nodes connect scans, SLAM and publishers.
#include "verif.h"
#include "random_stubs.h"
#include "core/geometry_utils.h"
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/grid_cell.h"
#include "core/maps/grid_map.h"
#include "core/maps/grid_map_scan_adders.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/tbm_grid_cells.h"
#include "core/maps/transferable_belief_model.h"
#include "core/particle_filter.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/states/laser_scan_grid_world.h"
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
#include "core/states/state_data.h"
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <mutex>
#include <sstream>
#include <thread>
#include "tf/tf.h"
#include "tf/message_filter.h"
#include "nav_msgs/OccupancyGrid.h"
#include "sensor_msgs/LaserScan.h"
#include "stream_stubs.h"
namespace std {
struct verif_mutex { void lock() {} void unlock() {} };
struct verif_thread { verif_thread() {} template <class... A> explicit verif_thread(A &&...) {} };
}
#define mutex verif_mutex
#define thread verif_thread
#define main sh_main
#include "ros/single_hypoth_slam_node.cpp"
#undef main
#define main credibilist_main
#include "slams/credibilist/slam.cpp"
#undef main
#define main gmapping_main
#include "slams/gmapping/gmapping.cpp"
#undef main
#undef mutex
#undef thread
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
typedef sensor_msgs::LaserScan Msg;
typedef nav_msgs::OccupancyGrid Grid;
static std::vector<Grid> &grids() { return ros::verif_published<Grid>::all(); }
static const double Th[] = {0, 0.75, -2.5, 3};
static void text(const std::string &k, const std::string &t) { ros::verif_params["~" + k] = {0, t, 0}; }
static void num(const std::string &k, double v) { ros::verif_params["~" + k] = {2, "", v}; }
static void count(const std::string &k, int v) { ros::verif_params["~" + k] = {1, "", (double)v}; }
static std::string config = "slam/map/width_in_meters=3\nslam/map/height_in_meters=2\nslam/map/meters_per_cell=0.5\nslam/mapping/grid/type=plain\nslam/mapping/grid/area/type=mean_probability\nslam/scmtch/type=idle\nslam/scmtch/spe/type=wmpp\nslam/scmtch/spe/wmpp/weighting/type=even\n";
static bool file(const std::string &n, std::string &t) { if (n != "cfg") return false; t = config; return true; }
struct Done {}; // the node is stopped
static int ran;
static double ox, oy, ot; // where the robot is according to its odometry
static int same(const tf::Transform &t, double x, double y, double th) {
  auto q = t.getRotation(); double c = std::cos(th), s = std::sin(th);
  auto v = tf::quatRotate(q, {1, 0, 0});
  return vand(vand(vnear(t.getOrigin().x(), x, 1e-9), vnear(t.getOrigin().y(), y, 1e-9)), vand(vnear(v.x(), c, 1e-9), vnear(v.y(), s, 1e-9)));
}
static const char *const N[] = {"ax", "ay", "bx", "by", "cx", "cy"};
static void received(std::shared_ptr<Msg> m, double x, double y, double th) {
  ox = x; oy = y; ot = th; m->header.frame_id = "laser"; m->header.stamp = ros::Time(7, 11);
  m->angle_min = 0; m->angle_increment = 0.5; m->angle_max = 0.5 * ((int)m->ranges.size() - 1); m->range_min = 0.5; m->range_max = 20;
  tf::verif_callback<Msg>::f()(m);
}
// after every scan: a correction that carries the odometry to the pose that is published
static void node(int stamped, int gmapping) {
  std::string topic = verif_topic;
  verif_check(topic == "/scans", "the topic of the scans");
  verif_check((bool)tf::verif_callback<Msg>::f(), "the node does not listen to scans"); if (!tf::verif_callback<Msg>::f()) verif_end_path();
  tf::verif_lookup = [](const std::string &to, const std::string &from, const ros::Time &w, tf::StampedTransform &r) {
    verif_check(to == "odo" && from == "laser" && w == ros::Time(7, 11), "another transform");
    r = tf::StampedTransform(tf::Transform(tf::createQuaternionFromRPY(0, 0, ot), {ox, oy, 0.5}), w, to, from);
  };
  for (int i = 0; i < 2 + T; ++i) {
    size_t n = tf::verif_sent.size(), g = grids().size(); ros::verif_clock = ros::Time(10 + i, 0);
    auto m = std::make_shared<Msg>(); double x = verif_real(N[2 * i], -50, 50), y = gmapping ? 2 * i - 1.5 : verif_real(N[2 * i + 1], -50, 50), th = Th[verif_choose("heading", 4)];
    received(m, x, y, th);
    verif_check(tf::verif_sent.size() == n + 2 && grids().size() == g + 1, "a scan does not lead to one correction, one pose and one map");
    if (tf::verif_sent.size() != n + 2) verif_end_path();
    int fc = tf::verif_sent[n].child_frame_id_ == "odo" ? 0 : 1; auto &c = tf::verif_sent[n + fc], &p = tf::verif_sent[n + 1 - fc];
    verif_check(c.frame_id_ == "m" && c.child_frame_id_ == "odo" && p.frame_id_ == "m" && p.child_frame_id_ == "r", "the frames of what is published");
    verif_check(p.stamp_ == (stamped ? ros::Time(7, 11) : ros::verif_clock), "the time of a published pose");
    verif_check(same(p, x, y, th), "the pose is not that of the odometry though nothing is matched");
    verif_check(same(c, 0, 0, 0), "the correction does not carry the odometry to the pose");
  }
  if (grids().size()) { auto &g = grids().back(); verif_check(g.info.width == 6 && g.info.height == 4 && g.data.size() == 24 && vnear(g.info.resolution, 0.5, 0) && g.header.frame_id == "m", "the configured map"); }
  // an obstacle in front of the robot
  auto m = std::make_shared<Msg>(); m->ranges = {0.625f};
  received(m, 0.125, 0.25, 0);
  auto &g = grids().back();
  int at = gmapping ? -1 : (int)((-g.info.origin.position.y / 0.5) * g.info.width + (-g.info.origin.position.x / 0.5) + 1);
  if (at >= 0) verif_check(at < (int)g.data.size() && g.data[at] > 60 && g.data[at - 1] < 40, "an obstacle is not on the published map");
  verif_cover("node"); ran = 1; throw Done();
}
static void given(int by_file) {
  if (by_file) { std::verif_file = file; text("slam/config", "cfg"); }
  else {
    num("slam/map/width_in_meters", 3); num("slam/map/height_in_meters", 2); num("slam/map/meters_per_cell", 0.5);
    text("slam/mapping/grid/type", "plain"); text("slam/mapping/grid/area/type", "mean_probability"); text("slam/scmtch/type", "idle");
    text("slam/scmtch/spe/type", "wmpp"); text("slam/scmtch/spe/wmpp/weighting/type", "even");
  }
  text("in/lscan2D/ros/topic/name", "/scans"); text("in/odometry/ros/tf/odom_frame_id", "odo");
  text("ros/tf/map_frame_id", "m"); text("ros/tf/robot_pose_frame_id", "r"); num("ros/rviz/map_publishing_rate", 0);
  verif_topic = "";
}
static char *Args[] = {(char *)"node", nullptr};
VERIF_ENTRY(c31_1h) { given(verif_choose("file", 2)); ros::verif_spin = [] { node(0, 0); }; try { sh_main(1, Args); } catch (const Done &) {} verif_check(ran, "the node does not run"); }
VERIF_ENTRY(c31_credibilist) { given(0); ros::verif_spin = [] { node(0, 0); }; try { credibilist_main(1, Args); } catch (const Done &) {} verif_check(ran, "the node does not run"); }
VERIF_ENTRY(c31_gmapping) {
  given(0); verif_fixed_draws = true; count("slam/particles/number", 1);
  for (auto k : {"xy/min", "xy/max", "theta/min", "theta/max"}) num(std::string("slam/particles/sm_delta_lim/") + k, 1000);
  ros::verif_spin = [] { node(1, 1); }; try { gmapping_main(1, Args); } catch (const Done &) {} verif_check(ran, "the node does not run");
}
