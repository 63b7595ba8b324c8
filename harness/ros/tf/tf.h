// Stand-in for tf: rigid transforms by quaternions; what is broadcast is recorded, what is looked up is given.
#pragma once
#include <cmath>
#include "../std_header.h"
namespace tf {
struct Vector3 {
  double v[3];
  Vector3(double x = 0, double y = 0, double z = 0) : v{x, y, z} {}
  double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; }
  double getX() const { return v[0]; } double getY() const { return v[1]; } double getZ() const { return v[2]; }
  void setX(double a) { v[0] = a; } void setY(double a) { v[1] = a; } void setZ(double a) { v[2] = a; }
  Vector3 operator+(const Vector3 &o) const { return {v[0] + o.v[0], v[1] + o.v[1], v[2] + o.v[2]}; }
  Vector3 operator-() const { return {-v[0], -v[1], -v[2]}; }
};
struct Quaternion {
  double q[4];
  Quaternion(double x = 0, double y = 0, double z = 0, double w = 1) : q{x, y, z, w} {}
  double x() const { return q[0]; } double y() const { return q[1]; } double z() const { return q[2]; } double w() const { return q[3]; }
  void setRPY(double r, double p, double y) {
    double cr = std::cos(r / 2), sr = std::sin(r / 2), cp = std::cos(p / 2), sp = std::sin(p / 2), cy = std::cos(y / 2), sy = std::sin(y / 2);
    q[0] = sr * cp * cy - cr * sp * sy; q[1] = cr * sp * cy + sr * cp * sy; q[2] = cr * cp * sy - sr * sp * cy; q[3] = cr * cp * cy + sr * sp * sy;
  }
  Quaternion inverse() const { return {-q[0], -q[1], -q[2], q[3]}; }
  Quaternion operator*(const Quaternion &o) const {
    return {q[3] * o.q[0] + q[0] * o.q[3] + q[1] * o.q[2] - q[2] * o.q[1], q[3] * o.q[1] + q[1] * o.q[3] + q[2] * o.q[0] - q[0] * o.q[2],
            q[3] * o.q[2] + q[2] * o.q[3] + q[0] * o.q[1] - q[1] * o.q[0], q[3] * o.q[3] - q[0] * o.q[0] - q[1] * o.q[1] - q[2] * o.q[2]};
  }
};
inline Quaternion createQuaternionFromRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); return q; }
inline Quaternion createQuaternionFromYaw(double y) { return createQuaternionFromRPY(0, 0, y); }
inline double getYaw(const Quaternion &q) { return std::atan2(2 * (q.w() * q.z() + q.x() * q.y()), 1 - 2 * (q.y() * q.y() + q.z() * q.z())); }
inline Vector3 quatRotate(const Quaternion &q, const Vector3 &p) {
  double x = q.x(), y = q.y(), z = q.z(), w = q.w();
  return {(1 - 2 * (y * y + z * z)) * p.x() + 2 * (x * y - w * z) * p.y() + 2 * (x * z + w * y) * p.z(),
          2 * (x * y + w * z) * p.x() + (1 - 2 * (x * x + z * z)) * p.y() + 2 * (y * z - w * x) * p.z(),
          2 * (x * z - w * y) * p.x() + 2 * (y * z + w * x) * p.y() + (1 - 2 * (x * x + y * y)) * p.z()};
}
struct Transform {
  Quaternion r; Vector3 o;
  Transform() {}
  explicit Transform(const Quaternion &q, const Vector3 &c = Vector3()) : r(q), o(c) {}
  Vector3 &getOrigin() { return o; } const Vector3 &getOrigin() const { return o; }
  Quaternion getRotation() const { return r; }
  void setOrigin(const Vector3 &v) { o = v; } void setRotation(const Quaternion &q) { r = q; }
  Transform inverse() const { return Transform(r.inverse(), -quatRotate(r.inverse(), o)); }
  Transform operator*(const Transform &t) const { return Transform(r * t.r, quatRotate(r, t.o) + o); }
};
struct StampedTransform : Transform {
  ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform &t, const ros::Time &s, const std::string &f, const std::string &c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
};
struct TransformException { std::string why; explicit TransformException(const std::string &w) : why(w) {} virtual ~TransformException() {} virtual const char *what() const { return why.c_str(); } };
struct ExtrapolationException : TransformException { using TransformException::TransformException; };
struct LookupException : TransformException { using TransformException::TransformException; };
struct ConnectivityException : TransformException { using TransformException::TransformException; };
static std::vector<StampedTransform> verif_sent;
static std::vector<geometry_msgs::TransformStamped> verif_sent_msgs;
struct TransformBroadcaster { void sendTransform(const StampedTransform &t) { verif_sent.push_back(t); } void sendTransform(const geometry_msgs::TransformStamped &t) { verif_sent_msgs.push_back(t); } };
// the harness answers lookups
static std::function<void(const std::string &, const std::string &, const ros::Time &, StampedTransform &)> verif_lookup;
struct Transformer {
  Transformer(bool = true, ros::Duration keep = ros::Duration(10)) { verif_keep() = keep.toSec(); }
  static double &verif_keep() { static double k = 10; return k; } // how long a transform is remembered, in seconds
  std::vector<StampedTransform> known;
  bool setTransform(const StampedTransform &t, const std::string & = "") { known.push_back(t); verif_known = &known; return true; }
  static std::vector<StampedTransform> *verif_known;
  void lookupTransform(const std::string &t, const std::string &s, const ros::Time &w, StampedTransform &r) const { verif_lookup(t, s, w, r); }
};
std::vector<StampedTransform> *Transformer::verif_known = nullptr;
struct TransformListener { TransformListener(ros::Duration = ros::Duration(10)) {} bool waitForTransform(const std::string &, const std::string &, const ros::Time &, const ros::Duration &) const { return true; } void lookupTransform(const std::string &t, const std::string &s, const ros::Time &w, StampedTransform &r) const { verif_lookup(t, s, w, r); } };
inline void transformStampedMsgToTF(const geometry_msgs::TransformStamped &m, StampedTransform &t) {
  auto &q = m.transform.rotation; auto &p = m.transform.translation;
  t = StampedTransform(Transform(Quaternion(q.x, q.y, q.z, q.w), Vector3(p.x, p.y, p.z)), m.header.stamp, m.header.frame_id, m.child_frame_id);
}
}
