// C30: playing a bag delivers every scan that can be placed, once, in order, with its transform.
#include "verif.h"
#include <algorithm>
#include <cassert>
#include <fstream>
#include <iostream>
#include <sstream>
#include "core/states/world.h"
#include "tf/tf.h"
#include "tf/tfMessage.h"
#include "sensor_msgs/LaserScan.h"
#include "rosbag/view.h"
#include "ros/bag_topic_with_transform.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
typedef sensor_msgs::LaserScan Msg;
struct Placed { ros::Time t; double x; };
static std::vector<Placed> known;        // where the scanner was, as recorded so far
static int others;                        // other transforms that were taken
static int asked_wrong, forgotten;
static geometry_msgs::TransformStamped tr(const char *from, const char *to, const ros::Time &t, double x) {
  geometry_msgs::TransformStamped r; r.header.frame_id = from; r.child_frame_id = to; r.header.stamp = t;
  r.transform.translation.x = x; r.transform.translation.y = -x; r.transform.rotation.w = 1; return r;
}
// a buffer of transforms as tf has it: the scanner is wherever it was recorded to be
static void collect() {
  known.clear(); others = 0; forgotten = 0;
  if (!tf::Transformer::verif_known) return;
  for (auto &k : *tf::Transformer::verif_known)
    if (k.frame_id_ == "/odom" && k.child_frame_id_ == "/laser") known.push_back({k.stamp_, k.getOrigin().x()});
    else { verif_check(k.frame_id_ == "/odom" && k.child_frame_id_ == "/wheel", "a transform that is to be ignored is used"); ++others; }
  // what is older than the time of remembering is forgotten
  while (known.size() && known.front().t.toSec() < known.back().t.toSec() - tf::Transformer::verif_keep()) { known.erase(known.begin()); ++forgotten; }
}
static void lookup(const std::string &to, const std::string &from, const ros::Time &w, tf::StampedTransform &r) {
  collect();
  if (to != "/odom" || from != "/laser") asked_wrong = 1;
  if (known.empty()) {
    if (others) throw tf::ConnectivityException("Could not find a connection between '/odom' and '/laser'");
    throw tf::LookupException("\"/laser\" passed to lookupTransform argument source_frame does not exist.");
  }
  double x = known[0].x;
  if (known.size() == 1) { if (!(w == known[0].t)) throw tf::ExtrapolationException("Lookup would require extrapolation at time 5, but only time 6 is in the buffer"); }
  else {
    if (w < known.front().t) throw tf::ExtrapolationException("Lookup would require extrapolation into the past.  Requested time 1 but the earliest data is at time 2");
    if (known.back().t < w) throw tf::ExtrapolationException("Lookup would require extrapolation into the future.  Requested time 3 but the latest data is at time 2");
    for (auto &k : known) if (!(w < k.t)) x = k.x;
  }
  r = tf::StampedTransform(tf::Transform(tf::Quaternion(), {x, -x, 0}), w, to, from);
}
static const char *X[] = {"x0", "x1", "x2", "x3", "x4", "x5", "x6"};
static const char *S[] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6"};
// a bag of N messages: scans, transforms and others, in any order
static void play(int N, int ignored_too, int pace = 1) {
  tf::verif_lookup = lookup;
  std::vector<std::shared_ptr<Msg>> scans; std::vector<Placed> all; int wheel = 0, last_scan = 0, last_tf = 0;
  for (int i = 0; i < N; ++i) {
    int k = verif_choose("kind", ignored_too ? 5 : 2);
    int t = verif_int(S[i], 1, 9) * pace;
    if (k == 0) {
      verif_assume(t >= last_scan); last_scan = t;
      auto m = std::make_shared<Msg>(); m->header.frame_id = "/laser"; m->header.stamp = ros::Time(t, 7);
      scans.push_back(m); rosbag::verif_bag.push_back({"/scan", m});
    } else if (k == 4) {
      auto m = std::make_shared<Msg>(); m->header.frame_id = "/laser"; m->header.stamp = ros::Time(t, 7);
      rosbag::verif_bag.push_back({"/other", m});
    } else {
      auto m = std::make_shared<tf::tfMessage>();
      if (k == 1 || k == 3) {
        verif_assume(t > last_tf); last_tf = t;
        double x = verif_real(X[i], -10, 10); int ns = verif_choose("late", 2) ? 9 : 7;
        if (k == 3) m->transforms.push_back(tr("/odom", "/slip", ros::Time(t, ns), 1));
        m->transforms.push_back(tr("/odom", "/laser", ros::Time(t, ns), x)); all.push_back({ros::Time(t, ns), x});
      }
      if (k == 2) { m->transforms.push_back(tr("/map", "/odom", ros::Time(t, 7), 1)); m->transforms.push_back(tr("/odom", "/wheel", ros::Time(t, 7), 1)); ++wheel; }
      rosbag::verif_bag.push_back({"/tf", m});
    }
  }
  auto &bag = *new BagTopicWithTransform<Msg>("file", "/scan", "/tf", "/odom");
  std::unordered_map<std::string, std::vector<std::string>> ign;
  if (ignored_too) { ign["/odom"].push_back("/other"); ign["/odom"].push_back("/slip"); ign["/map"].push_back("/odom"); }
  bag.set_tf_ignores(ign);
  size_t next = 0; int delivered = 0;
  for (; bag.extract_next_msg(); ++next) {
    // scans older than everything known are left out
    while (next < scans.size() && !all.empty() && scans[next]->header.stamp < all[0].t) ++next;
    verif_check(next < scans.size() && bag.msg().get() == scans[next].get(), "the scans are not delivered in order, once");
    if (!(next < scans.size()) || bag.msg().get() != scans[next].get()) return;
    auto w = scans[next]->header.stamp;
    verif_check(bag.timestamp() == w && bag.transform().stamp_ == w, "the time is not that of the scan");
    double x = 0; for (auto &k : all) if (!(w < k.t)) x = k.x;
    verif_check(vand(vnear(bag.transform().getOrigin().x(), x, 0), vnear(bag.transform().getOrigin().y(), -x, 0)), "the transform is not that of the scan");
    ++delivered;
    if (delivered > N) break;
  }
  // whatever can be placed has been delivered
  for (; next < scans.size(); ++next) {
    auto w = scans[next]->header.stamp;
    verif_check(all.size() < 2 || w < all[0].t || all.back().t < w, "a scan that can be placed is not delivered");
  }
  verif_check(!bag.extract_next_msg(), "a scan is delivered after the end");
  verif_check(!asked_wrong, "the transform asked for is not that from the scan to the target");
  collect();
  verif_check(others == wheel && known.size() == all.size(), "a transform is lost");
  if (delivered) verif_cover("delivered"); else verif_cover("none");
}
VERIF_ENTRY(c30_order) { play(5 + T, 0); }
VERIF_ENTRY(c30_ignored) { play(3 + T, 1); }
VERIF_ENTRY(c30_long) { play(4 + T, 0, 100); } // minutes pass between messages
