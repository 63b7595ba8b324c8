// C28: laser scan messages become the scans they stand for.
#include "verif.h"
#include <cassert>
#include "ros/laser_scan_observer.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
typedef sensor_msgs::LaserScan Msg;
struct Slam : SensorDataObserver<TransformedLaserScan> {
  std::vector<TransformedLaserScan> got;
  void handle_sensor_data(TransformedLaserScan &s) override { got.push_back(s); }
};
static std::shared_ptr<Msg> message(int n, double from, double inc) {
  auto m = std::make_shared<Msg>();
  m->angle_min = from; m->angle_increment = inc; m->angle_max = from + (n - 1) * inc;
  m->range_min = 0.5; m->range_max = 20;
  for (int i = 0; i < n; ++i) m->ranges.push_back(2);
  return m;
}
// checks that the scan s is what the message m says
static void check(const TransformedLaserScan &s, const Msg &m, int skip) {
  auto &p = s.scan.points(); size_t k = 0;
  for (size_t i = 0; i < m.ranges.size(); ++i) {
    double r = m.ranges[i];
    if (verif_fork(!(r >= m.range_min))) continue;
    int far = verif_fork(r >= m.range_max);
    if (far && skip) continue;
    verif_check(k < p.size(), "a measurement is lost");
    if (k >= p.size()) return;
    auto &q = p[k++];
    verif_check(q.is_occupied() == !far, "a measurement in range is an obstacle, one out of range is none");
    verif_check(vnear(q.range(), far ? m.range_max : r, 1e-9), "the range of a point");
    verif_check(vnear(q.angle(), m.angle_min + (double)i * m.angle_increment, 1e-6), "the angle of a point");
  }
  verif_check(k == p.size(), "a point without a measurement");
  verif_check(s.quality == 1, "the quality of a raw scan");
}
static double turn(double a) { return a - 2 * M_PI * std::floor(a / (2 * M_PI) + 0.5); }
// any ranges
VERIF_ENTRY(c28_ranges) {
  const int n = T ? 5 : 4;
  auto slam = std::make_shared<Slam>();
  int skip = verif_bool("skip"), cached = verif_choose("cached", 2);
  auto &o = *new LaserScanObserver(slam, skip, cached);
  static const double A[][2] = {{-1, 0.25}, {0, 0.5}, {-2.5, 0.0625}};
  int a = verif_choose("angles", 3);
  auto m = message(n, A[a][0], A[a][1]);
  m->range_min = verif_grid("range_min", 0, 4, 1.0 / 16); m->range_max = verif_grid("range_max", 4, 30, 1.0 / 16);
  for (int i = 0; i < n; ++i) {
    switch (i < 2 ? verif_choose("kind", 3) : 0) {
    case 0: m->ranges[i] = verif_grid("range", -1, 40, 1.0 / 16); break;
    case 1: m->ranges[i] = std::numeric_limits<float>::quiet_NaN(); break;
    default: m->ranges[i] = std::numeric_limits<float>::infinity();
    }
  }
  o.handle_transformed_msg(m, tf::StampedTransform());
  verif_check(slam->got.size() == 1, "a message is not handled exactly once");
  if (slam->got.size() != 1) return;
  verif_cover("scan");
  check(slam->got[0], *m, skip);
}
// any direction of the first measurement
VERIF_ENTRY(c28_angles) {
  auto slam = std::make_shared<Slam>();
  auto &o = *new LaserScanObserver(slam, false, false);
  int n = verif_int("n", 1, 3); n = (int)verif_pick(n);
  static const double Inc[] = {0.25, -0.25, 0.0078125};
  auto m = message(n, verif_grid("from", -3, 3, 1.0 / 64), Inc[verif_choose("step", 3)]);
  o.handle_transformed_msg(m, tf::StampedTransform());
  if (slam->got.size() != 1) { verif_check(0, "a message is not handled exactly once"); return; }
  check(slam->got[0], *m, 0);
}
// the pose difference of every message to the previous one
VERIF_ENTRY(c28_odometry) {
  auto slam = std::make_shared<Slam>();
  auto &o = *new LaserScanObserver(slam, false, false);
  static const double Yaw[] = {0.5, -1.25, 3, -3, 0};
  double x = 0, y = 0, th = 0;
  static const char *NX[] = {"x0", "x1", "x2"}, *NY[] = {"y0", "y1", "y2"};
  for (int i = 0; i < 3; ++i) {
    if (verif_bool("set")) { x = 5 + i; y = -7; th = 0.25; o.set_odometry_pose({x, y, th}); }
    double nx = verif_real(NX[i], -100, 100), ny = verif_real(NY[i], -100, 100), nt = Yaw[verif_choose("yaw", T ? 5 : 3)];
    int kind = verif_choose("kind", 3); auto m = message(kind == 1 ? 0 : 2, -1, 0.5);
    if (kind == 2) for (auto &r : m->ranges) r = 0.25f;
    o.handle_transformed_msg(m, tf::StampedTransform(tf::Transform(tf::createQuaternionFromRPY(0, 0, nt), {nx, ny, 0.75}), ros::Time(), "", ""));
    verif_check((int)slam->got.size() == i + 1, "a message is not handled exactly once");
    if ((int)slam->got.size() != i + 1) return;
    auto &d = slam->got[i].pose_delta;
    verif_check(slam->got[i].scan.points().size() == (kind ? 0u : 2u), "the number of points of a scan");
    verif_check(vand(vnear(d.x, nx - x, 1e-9), vnear(d.y, ny - y, 1e-9), vnear(turn(d.theta - (nt - th)), 0, 1e-9)), "the odometry delta is not the movement since the last message");
    x = nx; y = ny; th = nt;
    auto &p = o.odometry_pose();
    verif_check(vand(vnear(p.x, x, 1e-9), vnear(p.y, y, 1e-9), vnear(p.theta, th, 1e-9)), "the odometry pose");
  }
  verif_cover("odometry");
}
// the cached trigonometry of a scan agrees with the exact one
VERIF_ENTRY(c28_trigonometry) {
  auto slam = std::make_shared<Slam>();
  auto &o = *new LaserScanObserver(slam, false, true), &raw = *new LaserScanObserver(slam, false, false);
  static const struct { int n; double from, inc; } S[] = {{3, -1, 0.25}, {61, -2.35619449, 0.0785398163}, {181, -1.57079637, 0.0174532924}, {541, -2.35619449, 0.00872664619}, {1, 0.5, 0.25}};
  int k = verif_choose("scanner", T ? 5 : 4);
  auto m = message(S[k].n, S[k].from, S[k].inc);
  if (k) m->angle_max = S[k].from + (S[k].n - 1) * S[k].inc;
  int i = verif_choose("point", 3); i = i == 0 ? 0 : i == 1 ? S[k].n / 2 : S[k].n - 1;
  m->ranges[i] = verif_grid("range", 1, 19, 1.0 / 16);
  o.handle_transformed_msg(m, tf::StampedTransform()); raw.handle_transformed_msg(m, tf::StampedTransform());
  double x = verif_grid("x", -50, 50, 1.0 / 16), y = verif_grid("y", -50, 50, 1.0 / 16), th = (verif_choose("heading", 3) - 1) * 1.375;
  auto &a = slam->got[0].scan, &b = slam->got[1].scan;
  a.trig_provider->set_base_angle(th); b.trig_provider->set_base_angle(th);
  verif_check(a.points().size() == b.points().size() && (int)a.points().size() == S[k].n, "a measurement is lost");
  auto p = a.points()[i].move_origin({x, y}, a.trig_provider);
  double c = std::cos(th + S[k].from + i * S[k].inc), s = std::sin(th + S[k].from + i * S[k].inc);
  verif_check(vand(vnear(p.x, x + m->ranges[i] * c, 1e-3), vnear(p.y, y + m->ranges[i] * s, 1e-3)), "a point is not where the message says");
  auto q = b.points()[i].move_origin({x, y}, b.trig_provider);
  verif_check(vand(vnear(p.x, q.x, 1e-3), vnear(p.y, q.y, 1e-3)), "the cached trigonometry differs from the exact one");
}
// messages of different scanners (or settings) one after another: every scan keeps its own directions
VERIF_ENTRY(c28_scanners) {
  auto slam = std::make_shared<Slam>(), slam2 = std::make_shared<Slam>();
  auto &o = *new LaserScanObserver(slam, false, true), &other = *new LaserScanObserver(slam2, false, true);
  static const double A[][3] = {{3, -1, 0.25}, {3, 0.5, 0.25}, {3, -1, 0.5}, {5, -1, 0.25}, {3, -1.125, 0.25}};
  const int N = 2 + T; int kind[3]; double r[3]; static const char *RN[] = {"r0", "r1", "r2"};
  for (int k = 0; k < N; ++k) {
    kind[k] = verif_choose("scanner", 5); auto &a = A[kind[k]];
    auto m = message((int)a[0], a[1], a[2]);
    m->ranges[2] = r[k] = verif_grid(RN[k], 1, 19, 1.0 / 16);
    (k == 1 && verif_choose("other", 2) ? other : o).handle_transformed_msg(m, tf::StampedTransform());
  }
  double x = verif_grid("x", -50, 50, 1.0 / 16), y = verif_grid("y", -50, 50, 1.0 / 16);
  verif_check((int)(slam->got.size() + slam2->got.size()) == N, "a message is not handled exactly once");
  size_t i = 0, j = 0;
  for (int k = 0; k < N; ++k) {
    auto &g = j < slam2->got.size() && k == 1 ? slam2->got[j++] : slam->got[i++];
    auto &s = g.scan; double th = 0.375 + k, an = th + A[kind[k]][1] + 2 * A[kind[k]][2];
    verif_check((int)s.points().size() == (int)A[kind[k]][0], "a measurement is lost"); if (s.points().size() < 3) return;
    s.trig_provider->set_base_angle(th);
    auto p = s.points()[2].move_origin({x, y}, s.trig_provider);
    verif_check(vand(vnear(p.x, x + r[k] * std::cos(an), 1e-3), vnear(p.y, y + r[k] * std::sin(an), 1e-3)), "a point is not where the message says");
  }
  verif_cover("scanners");
}
