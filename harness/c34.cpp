// C33: the helper nodes pass on what they are given.
#include "verif.h"
#include <algorithm>
#include <cassert>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>
#include "core/geometry_utils.h"
#include "core/states/world.h"
#include "core/states/sensor_data.h"
#include "core/states/state_data.h"
#include "core/maps/grid_map.h"
#include "tf/tf.h"
#include "tf/tfMessage.h"
#include "tf/message_filter.h"
#include "nav_msgs/OccupancyGrid.h"
#include "nav_msgs/Path.h"
#include "stream_stubs.h"
namespace std {
struct verif_mutex { void lock() {} void unlock() {} };
struct verif_thread { verif_thread() {} template <class... A> explicit verif_thread(A &&...) {} };
}
#define mutex verif_mutex
#define thread verif_thread
#define main path_main
#include "ros/path_publisher.cpp"
#undef main
#define main adapter_main
#include "ros/wg_pr2_bag_adapter.cpp"
#undef main
#undef mutex
#undef thread
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
struct Done {};
template <class F> static void node(F f) {
  static char name[] = "node"; static char *argv[] = {name, nullptr};
  try { f(1, argv); verif_check(0, "the node ends by itself"); } catch (const Done &) {}
}
static const char *X[] = {"x0", "x1", "x2", "x3", "x4", "x5"}, *Y[] = {"y0", "y1", "y2", "y3", "y4", "y5"}, *S[] = {"t0", "t1", "t2", "t3", "t4", "t5"};
// the path published in every round is the one before and the place of the robot now
VERIF_ENTRY(c33_path) {
  int named = verif_choose("named", 2);
  if (named) { ros::verif_params["~ros/tf/map_frame_id"] = {0, "world", 0}; ros::verif_params["base_link_frame_id"] = {0, "body", 0}; ros::verif_params["path_topic_name"] = {0, "way", 0}; ros::verif_params["publishing_rate"] = {2, "", 2}; }
  const std::string map = named ? "world" : "map", base = named ? "body" : "base_link";
  struct At { double x, y; ros::Time t; }; static std::vector<At> at; at.clear();
  int fail = verif_choose("fail", 4 + T), lookups = 0, failed = 0; const int N = 3 + T; // the lookup that fails (if any)
  ros::verif_ok_times = 1000;
  tf::verif_lookup = [&](const std::string &to, const std::string &from, const ros::Time &w, tf::StampedTransform &r) {
    verif_check(to == map && from == base, "the transform asked for is not that of the robot in the map");
    verif_check(w.isZero(), "not the latest transform is asked for");
    if (++lookups == fail) { failed = 1; throw tf::ExtrapolationException("Lookup would require extrapolation into the past"); }
    int i = at.size();
    at.push_back({verif_real(X[i], -1000, 1000), verif_real(Y[i], -1000, 1000), ros::Time(verif_int(S[i], 1, 1000), 5)});
    r = tf::StampedTransform(tf::Transform(tf::createQuaternionFromYaw(0.5), {at.back().x, at.back().y, 3}), at.back().t, to, from);
  };
  typedef ros::verif_published<nav_msgs::Path> Pub;
  ros::verif_sleep = [&](double s) {
if (failed) { failed = 0; verif_check(Pub::all().size() == at.size(), "a path is published without a place of the robot"); return; }
    verif_check(vnear(s, named ? 0.5 : 0.2, 1e-9), "the paths are not published at the configured rate");
    verif_check(Pub::all().size() == at.size(), "a round does not publish one path");
    if (Pub::all().size() != at.size()) throw Done();
    auto &p = Pub::all().back();
    verif_check(p.header.frame_id == map && p.header.stamp == at.back().t, "the frame or the time of the path");
    verif_check(p.poses.size() == at.size(), "the path does not have a place per round"); if (p.poses.size() != at.size()) throw Done();
    for (size_t i = 0; i < at.size(); ++i) {
      auto &q = p.poses[i];
      verif_check(vand(q.pose.position.x == at[i].x, q.pose.position.y == at[i].y), "a place of the path");
      verif_check(q.header.stamp == at[i].t && q.header.frame_id == map, "the frame or the time of a place");
    }
    if ((int)at.size() == N) { verif_cover("path"); throw Done(); }
  };
  node(path_main);
  verif_check(ros::verif_topics.size() == 1 && ros::verif_topics[0] == (named ? "way" : "path"), "the topic of the path");
}
// every transform is sent on once, in order; corrections are replaced by the first one
VERIF_ENTRY(c33_adapter) {
  int named = verif_choose("named", 2);
  if (named) { ros::verif_params["~ros/tf/map_frame_id"] = {0, "world", 0}; ros::verif_params["~in/odometry/ros/tf/odom_frame_id"] = {0, "odo", 0}; }
  const std::string map = named ? "/world" : "/map", odom = named ? "/odo" : "/odom_combined";
  typedef geometry_msgs::TransformStamped M; std::vector<M> sent; const int N = 3 + T;
  int rounds = 0, grids = 0; signed char cell = 0; ros::verif_ok_times = 1000;
  ros::verif_spin = [&] {
    int r = rounds++;
    if (r >= N) return;
    if (verif_choose("grid", 2)) {
      auto g = boost::shared_ptr<nav_msgs::OccupancyGrid>(new nav_msgs::OccupancyGrid); g->header.frame_id = "/map"; g->header.stamp = ros::Time(5 + r, 0); g->info.width = 1; g->info.height = 1; g->data.push_back(cell = (signed char)(10 + r));
      ros::verif_connected<nav_msgs::OccupancyGrid>::all().at("provided_grid_orig")(g); ++grids;
    }
    boost::shared_ptr<tf::tfMessage> m(new tf::tfMessage);
    for (int n = r == 1 ? 2 : 1; n > 0; --n) {
      M t; int k = verif_choose("kind", 4), i = sent.size();
      t.header.frame_id = k == 0 || k == 1 ? map : odom; t.child_frame_id = k == 0 || k == 3 ? odom : "/base"; if (k == 3) t.header.frame_id = "/other";
      t.header.stamp = ros::Time(verif_int(S[i], 1, 1000), 7); t.transform.translation.x = verif_real(X[i], -1000, 1000); t.transform.translation.y = verif_real(Y[i], -1000, 1000); t.transform.rotation.w = 1;
      m->transforms.push_back(t); sent.push_back(t);
    }
    ros::verif_connected<tf::tfMessage>::all().at("tf_in")(m);
  };
  ros::verif_sleep = [&](double s) {
    verif_check(rounds > 0, "messages are not handled");
    auto &gs = ros::verif_published<nav_msgs::OccupancyGrid>::all();
    verif_check((int)gs.size() == rounds, "a round does not publish one map");
    if (rounds <= N) return;
    if (grids && !gs.empty()) {
      auto &g = gs.back(); verif_check(g.header.frame_id == "provided_map" && g.info.width == 1 && g.data.size() == 1 && g.data[0] == cell, "the map is not the last one provided");
    }
    throw Done();
  };
  node(adapter_main);
  auto &got = tf::verif_sent_msgs; int first = -1;
  verif_check(got.size() == sent.size(), "a transform is lost or sent twice"); if (got.size() != sent.size()) return;
  for (size_t i = 0; i < sent.size(); ++i) {
    int corr = sent[i].header.frame_id == map && sent[i].child_frame_id == odom;
    if (corr && first < 0) first = i;
    auto &w = sent[corr ? first : i];
    if (corr) verif_check(got[i].header.frame_id == "/provided_map" && got[i].child_frame_id == "/map", "the frames of a replaced correction");
    else verif_check(got[i].header.frame_id == w.header.frame_id && got[i].child_frame_id == w.child_frame_id, "the frames of a transform");
    verif_check(vand(got[i].transform.translation.x == w.transform.translation.x, got[i].transform.translation.y == w.transform.translation.y, got[i].transform.rotation.w == 1), "a transform is changed");
    if (!corr) verif_check(got[i].header.stamp == w.header.stamp, "the time of a transform");
  }
  verif_cover("passed on");
}
