// C29: published maps, transforms and trajectories describe the world.
#include "verif.h"
#include <cassert>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>
#include "core/states/world.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "tf/tf.h"
#include "tf/message_filter.h"
#include "nav_msgs/OccupancyGrid.h"
#include "sensor_msgs/LaserScan.h"
#include "stream_stubs.h"
namespace std {

// a thread is run by the harness, other threads may be run whenever a lock is not held
static function<void()> verif_thread_body, verif_switch;
struct verif_mutex { int held = 0; void lock() { if (verif_switch) verif_switch(); verif_check(!held, "a lock is taken twice"); held = 1; } void unlock() { verif_check(held, "a lock is released twice"); held = 0; if (verif_switch) verif_switch(); } };
struct verif_thread { verif_thread() {} template <class F, class O> verif_thread(F f, O o) { verif_thread_body = [f, o]() { (o->*f)(); }; } };
}
#define mutex verif_mutex
#define thread verif_thread
#include "ros/occupancy_grid_publisher.h"
#include "ros/pose_correction_tf_publisher.h"
#include "ros/topic_with_transform.h"
#include "ros/robot_pose_observers.h"
#undef mutex
#undef thread
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
typedef sensor_msgs::LaserScan Msg;
typedef nav_msgs::OccupancyGrid Grid;
static std::vector<Grid> &grids() { return ros::verif_published<Grid>::all(); }
static void set_time(double t) { ros::verif_clock = ros::Time((uint32_t)t, (uint32_t)((t - (uint32_t)t) * 1e9)); }
// the message g shows the map m
static void shown(const Grid &g, const GridMap &m, double *p) {
  int w = m.width(), h = m.height(); auto o = m.origin();
  verif_check(vand((int)g.info.width == w, (int)g.info.height == h, (int)g.data.size() == w * h), "the size of the published map");
  verif_check(vnear(g.info.resolution, m.scale(), 1e-6), "the resolution of the published map");
  verif_check(vand(vnear(g.info.origin.position.x, -m.scale() * o.x, 1e-5), vnear(g.info.origin.position.y, -m.scale() * o.y, 1e-5)), "the place of the published map");
  verif_check(g.header.frame_id == "map", "the frame of the published map");
  if ((int)g.data.size() != w * h) return;
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      double v = m[{x - o.x, y - o.y}], d = g.data[y * w + x];
      verif_check(vor(vand(v == -1, d == -1), vand(v != -1, d >= 100 * v - 1 - 1e-6, d <= 100 * v + 1e-6)), "a published cell is not the percentage of the map");
    }
}
template <class M> static void maps(int w, int h, double scale, std::vector<DiscretePoint2D> cells) {
  auto &m = *new M(std::make_shared<GridCell>(Occupancy{-1, 1}), GridMapParams{w, h, scale});
  int n = 0;
  for (auto &c : cells) m.reset(c, GridCell{Occupancy{verif_real(n++ ? "q" : "p", 0, 1), 1}});
  set_time(100);
  auto &pub = *new OccupancyGridPublisher<GridMap>(ros::Publisher(), "map", 5);
  pub.on_map_update(m);
  verif_check(grids().size() == 1, "a map is not published");
  if (grids().size() != 1) return;
  verif_cover("map");
  shown(grids()[0], m, nullptr);
}
// any occupancies, maps of several shapes
VERIF_ENTRY(c29_map) {
  static const int S[][2] = {{3, 2}, {1, 5}, {4, 4}, {2, 1}};
  int k = verif_choose("size", 4), w = S[k][0], h = S[k][1];
  int x = verif_choose("x", 4), y = verif_choose("y", 5);
  if (x >= w || y >= h) return;
  maps<PlainGridMap>(w, h, k % 2 ? 0.1 : 0.5, {{x - w / 2, y - h / 2}, {w - 1 - w / 2, -(h / 2)}});
}
VERIF_ENTRY(c29_grown) { // the map grows in any direction
  static const int D[][2] = {{-3, 0}, {4, 1}, {0, -4}, {1, 3}, {-2, 2}};
  int k = verif_choose("to", 5);
  maps<UnboundedPlainGridMap>(2, 1, 0.25, {{D[k][0], D[k][1]}, {0, 0}});
}
// the map grows between two publications, or another map is published (a new master)
VERIF_ENTRY(c29_republished) {
  auto cell = std::make_shared<GridCell>(Occupancy{-1, 1});
  auto *a = new UnboundedPlainGridMap(cell, GridMapParams{2, 1, 0.5}), *b = new UnboundedPlainGridMap(cell, GridMapParams{2, 1, verif_choose("scale", 2) ? 0.5 : 0.25});
  auto &pub = *new OccupancyGridPublisher<GridMap>(ros::Publisher(), "map", 5);
  static const int D[][2] = {{-4, 0}, {4, 1}, {0, -4}, {1, 3}, {0, 0}, {3, 0}};
  static const char *N[] = {"p", "q", "r"};
  for (int i = 0; i < 2 + T; ++i) {
    auto d = D[verif_choose("to", 6)]; auto &m = i && verif_choose("other", 2) ? *b : *a;
    m.reset({d[0], d[1]}, GridCell{Occupancy{verif_real(N[i], 0, 1), 1}});
    set_time(100 + 10 * i);
    pub.on_map_update(m);
    verif_check((int)grids().size() == i + 1, "a map is not published");
    if ((int)grids().size() != i + 1) return;
    shown(grids()[i], m, nullptr);
  }
  verif_cover("republished");
}
// any times of updates
VERIF_ENTRY(c29_interval) {
  auto &m = *new PlainGridMap(std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{1, 1, 1});
  double every = verif_grid("every", 0, 10, 1.0 / 16), t = 0, last = 0; size_t n = 0;
  auto &pub = *new OccupancyGridPublisher<GridMap>(ros::Publisher(), "map", every);
  static const char *N[] = {"t0", "t1", "t2", "t3"};
  for (int i = 0; i < 3 + T; ++i) {
    int s = verif_int(N[i], 0, 30); t += s;
    ros::verif_clock = ros::Time((uint32_t)(int)t, 0);
    pub.on_map_update(m);
    if (verif_fork(t - last >= every)) { ++n; last = t; }
    verif_check(grids().size() == n, "a map is published at another time than the interval demands");
  }
  verif_cover("interval");
}
// the published transforms
static int same(const tf::Transform &t, double x, double y, double th) {
  auto q = t.getRotation(); double c = std::cos(th), s = std::sin(th);
  auto v = tf::quatRotate(q, {1, 0, 0}), u = tf::quatRotate(q, {0, 0, 1});
  return vand(vand(vnear(t.getOrigin().x(), x, 1e-9), vnear(t.getOrigin().y(), y, 1e-9), vnear(t.getOrigin().z(), 0, 1e-9)),
              vand(vnear(v.x(), c, 1e-9), vnear(v.y(), s, 1e-9), vnear(u.z(), 1, 1e-9)));
}
static const double Th[] = {0, 0.75, -2.5, 3};
VERIF_ENTRY(c29_correction) {
  auto &p = *new PoseCorrectionTfPublisher<Msg>("map", "odom");
  double ox = 0, oy = 0, ot = 0; size_t n = 0; int stamp = 0;
  static const char *N[] = {"ax", "ay", "bx", "by", "cx", "cy", "dx", "dy"};
  set_time(3.5);
  for (int i = 0; i < 2; ++i) {
    if (verif_bool("odometry")) {
      ox = verif_real(N[4 * i], -50, 50); oy = verif_real(N[4 * i + 1], -50, 50); ot = Th[verif_choose("yaw", 4)];
      auto m = std::make_shared<Msg>(); m->header.stamp = ros::Time(stamp += verif_bool("later"), 7); // messages of one time are possible
      p.handle_transformed_msg(m, tf::StampedTransform(tf::Transform(tf::createQuaternionFromRPY(0, 0, ot), {ox, oy, 1.5}), m->header.stamp, "", ""));
    }
    RobotPose r{verif_real(N[4 * i + 2], -50, 50), verif_real(N[4 * i + 3], -50, 50), Th[verif_choose("heading", 4)]};
    p.on_pose_update(r); ++n;
    verif_check(tf::verif_sent.size() == n, "a pose is not published exactly once");
    if (tf::verif_sent.size() != n) return;
    auto &t = tf::verif_sent.back();
    verif_check(t.frame_id_ == "map" && t.child_frame_id_ == "odom" && t.stamp_ == ros::Time::now(), "the frames of a published correction");
    verif_check(same(t * tf::Transform(tf::createQuaternionFromRPY(0, 0, ot), {ox, oy, 0}), r.x, r.y, r.theta), "the correction does not carry the odometry to the pose");
  }
  verif_cover("correction");
}
VERIF_ENTRY(c29_async) { // the publishing thread runs between any two critical sections
  auto &p = *new PoseCorrectionTfPublisher<Msg>("map", "odom", true);
  verif_check((bool)std::verif_thread_body, "corrections are not published asynchronously");
  if (!std::verif_thread_body) return;
  set_time(3.5);
  static const char *N[] = {"ax", "ay", "bx", "by"};
  double x[3] = {0, 0, 0}, y[3] = {0, 0, 0}, t[3] = {0, 0, 0}; int from = 0, to = 0, in = 0; size_t n = 0;
  auto run = [&]() {
    if (in || !verif_choose("runs", 2)) return;
    in = 1; ros::verif_ok_times = 1; auto k = tf::verif_sent.size(); n += 1;
    std::verif_thread_body(); in = 0;
    verif_check(tf::verif_sent.size() == k + 1, "a correction is not published once in a round");
    if (tf::verif_sent.size() != k + 1) return;
    auto &s = tf::verif_sent.back();
    int ok = from == to ? same(s, x[to], y[to], t[to]) : vor(same(s, x[to], y[to], t[to]), same(s, x[from], y[from], t[from]));
    verif_check(ok && s.frame_id_ == "map" && s.child_frame_id_ == "odom", "the correction published is not the present one");
  };
  std::verif_switch = run; run();
  for (int i = 0; i < 2; ++i) {
    x[i + 1] = verif_real(N[2 * i], -50, 50); y[i + 1] = verif_real(N[2 * i + 1], -50, 50); t[i + 1] = Th[verif_choose("heading", 4)];
    to = i + 1; p.on_pose_update({x[to], y[to], t[to]}); from = to; ++n;
    verif_check(tf::verif_sent.size() == n, "a correction is not published when it changes");
  }
  std::verif_switch = nullptr; run();
  verif_cover("async");
}
struct Seen : TopicObserver<Msg> {
  std::vector<const Msg *> msgs; std::vector<tf::StampedTransform> ts;
  void handle_transformed_msg(const boost::shared_ptr<Msg> m, const tf::StampedTransform &t) override { msgs.push_back(m.get()); ts.push_back(t); }
};
// messages with their transforms reach every living subscriber once
VERIF_ENTRY(c29_topic) {
  ros::NodeHandle nh;
  auto &t = *new TopicWithTransform<Msg>(nh, "/scan", "odom");
  double x = 0; int fails = 0; std::string asked; ros::Time when;
  tf::verif_lookup = [&](const std::string &to, const std::string &from, const ros::Time &w, tf::StampedTransform &r) {
    asked = to + "<" + from; when = w;
    if (fails) throw tf::LookupException("unknown");
    r = tf::StampedTransform(tf::Transform(tf::Quaternion(), {x, 2, 0}), w, to, from);
  };
  std::vector<std::shared_ptr<Seen>> s; std::vector<size_t> expect;
  for (int i = 0; i < 3; ++i) { s.push_back(std::make_shared<Seen>()); expect.push_back(0); }
  static const char *N[] = {"x0", "x1", "x2"};
  for (int i = 0; i < 2 + T; ++i) {
    t.subscribe(s[i]);
    int drop = verif_bool("drop");
    if (i == 1 && drop) s[0].reset();
    auto m = std::make_shared<Msg>(); m->header.frame_id = "laser"; m->header.stamp = ros::Time(7 + i, 11);
    x = verif_real(N[i], -10, 10); fails = verif_bool("fails");
    tf::verif_callback<Msg>::f()(m);
    verif_check(asked == "odom<laser" && when == m->header.stamp, "another transform than that of the message is used");
    for (int k = 0; k <= i; ++k) {
      if (!s[k]) continue;
      expect[k] += !fails;
      verif_check(s[k]->msgs.size() == expect[k], "a subscriber is not told exactly once");
      if (s[k]->msgs.size() != expect[k]) return;
      if (!fails) verif_check(vand(s[k]->msgs.back() == m.get(), vnear(s[k]->ts.back().getOrigin().x(), x, 0)), "a subscriber gets another message or transform");
    }
  }
  verif_check(verif_topic == "/scan", "another topic");
  verif_cover("topic");
}

// the published poses
VERIF_ENTRY(c29_pose) {
  auto &p = *new RobotPoseTfPublisher("map", "robot");
  auto &q = *new ObservationStampedRoboPoseTfPublisher<Msg>("map", "laser");
  set_time(12.25);
  auto m = std::make_shared<Msg>(); m->header.stamp = ros::Time(9, verif_choose("whole", 2) ? 0 : 500);
  q.handle_transformed_msg(m, tf::StampedTransform());
  static const char *N[] = {"ax", "ay", "bx", "by"};
  for (int i = 0; i < 2; ++i) {
    RobotPose r{verif_real(N[2 * i], -50, 50), verif_real(N[2 * i + 1], -50, 50), Th[verif_choose("heading", 4)]};
    RobotPoseTfPublisher *o[] = {&p, &q}; int k = verif_choose("stamped", 2);
    o[k]->on_pose_update(r);
    verif_check((int)tf::verif_sent.size() == i + 1, "a pose is not published exactly once");
    if ((int)tf::verif_sent.size() != i + 1) return;
    auto &t = tf::verif_sent.back();
    verif_check(t.frame_id_ == "map" && t.child_frame_id_ == (k ? "laser" : "robot"), "the frames of a published pose");
    verif_check(t.stamp_ == (k ? m->header.stamp : ros::Time::now()), "the time of a published pose");
    verif_check(same(t, r.x, r.y, r.theta), "another pose is published");
  }
  verif_cover("pose");
}
static double number(const char *&c) { // a decimal number and the blank after it
  double s = 1, v = 0, q = 1;
  if (*c == '-') { s = -1; ++c; }
  verif_check(*c >= '0' && *c <= '9', "a line of a trajectory is no list of numbers");
  while (*c >= '0' && *c <= '9') v = v * 10 + (*c++ - '0');
  if (*c == '.') { ++c; while (*c >= '0' && *c <= '9') { q /= 10; v += q * (*c++ - '0'); } }
  verif_check(*c == ' ' || *c == '\n', "a line of a trajectory is no list of numbers"); ++c;
  return s * v;
}
// a dumped trajectory (time x y z and a quaternion)
VERIF_ENTRY(c29_trajectory) {
  static const unsigned Sec[] = {0, 17, 1500000}, Nsec[] = {0, 5, 5000000, 123456789, 99000000, 999999999};
  {
    RobotPoseTumTrajectoryDumper d("out", verif_choose("flush", 2));
    double X[] = {0.5, -3.25}, Y[] = {-0.125, 12};
    int a = verif_choose("sec", 3), b = verif_choose("nsec", 6), h = verif_choose("heading", 4), by = verif_choose("clock", 2);
    for (int i = 0; i < 2; ++i) {
      ros::Time t(Sec[a] + i, Nsec[(b + i) % 6]); RobotPose r{X[i], Y[i], Th[(h + i) % 4]};
      if (by) { ros::verif_clock = t; d.on_pose_update(r); } else d.log_robot_pose(t, r);
    }
    verif_check(vfiles_nm == 1 && vfiles[0]->name == "out", "a trajectory is not written to its file");
    if (vfiles_nm != 1) return;
    vfiles[0]->data[vfiles[0]->n] = 0;
    const char *c = vfiles[0]->data;
    for (int i = 0; i < 2; ++i) {
      double v[8]; for (double &e : v) e = number(c);
      verif_check(c[-1] == '\n', "a line of a trajectory has not 8 numbers");
      double t = Sec[a] + i + 1e-9 * Nsec[(b + i) % 6], th = Th[(h + i) % 4], z = 2 * v[6] * v[7], w = v[7] * v[7] - v[6] * v[6];
      verif_check(vnear(v[0], t, 1e-8), "the time of a dumped pose");
      verif_check(vand(vnear(v[1], X[i], 1e-5), vnear(v[2], Y[i], 1e-5), vnear(v[3], 0, 0)), "the place of a dumped pose");
      verif_check(vand(vand(vnear(v[4], 0, 1e-5), vnear(v[5], 0, 1e-5)), vnear(z, std::sin(th), 1e-4), vnear(w, std::cos(th), 1e-4)), "the heading of a dumped pose");
    }
    verif_check(c == vfiles[0]->data + vfiles[0]->n, "a trajectory has another number of lines");
  }
  verif_cover("trajectory");
}
