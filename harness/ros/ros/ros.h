// Stand-ins for the part of ROS the repository uses: the clock, parameters and connections are given by
// the harness, what is published is recorded.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <boost/shared_ptr.hpp>
namespace ros {
struct Duration {
  double s;
  explicit Duration(double secs = 0) : s(secs) {}
  double toSec() const { return s; }
  bool operator<(const Duration &o) const { return s < o.s; }
  bool operator>(const Duration &o) const { return s > o.s; }
  bool operator<=(const Duration &o) const { return s <= o.s; }
  bool operator>=(const Duration &o) const { return s >= o.s; }
  bool sleep() const;
};
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  explicit Time(double t) : sec((uint32_t)t), nsec((uint32_t)((t - (uint32_t)t) * 1e9)) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  double toSec() const { return sec + 1e-9 * nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator-(const Time &o) const { return Duration((double)sec - (double)o.sec + 1e-9 * ((double)nsec - (double)o.nsec)); }
  bool operator==(const Time &o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time &o) const { return !(*this == o); }
  bool operator<(const Time &o) const { return sec < o.sec || (sec == o.sec && nsec < o.nsec); }
  static Time now();
  static void init() {}
};
static Time verif_clock;
inline Time Time::now() { return verif_clock; }
template <class M> struct verif_published { static std::vector<M> &all() { static auto &v = *new std::vector<M>; return v; } };
struct Publisher { template <class M> void publish(const M &m) const { verif_published<M>::all().push_back(m); } };
static std::function<void()> verif_spin; // what happens while a node runs
static std::function<void(double)> verif_sleep; // ... and while it sleeps
inline bool Duration::sleep() const { if (verif_sleep) verif_sleep(s); return true; }
inline void spinOnce() { if (verif_spin) verif_spin(); }
inline void init(int &, char **, const std::string &) {}
inline void spin() { if (verif_spin) verif_spin(); }
struct Rate { double r; explicit Rate(double v) : r(v) {} void sleep() { if (verif_sleep) verif_sleep(1 / r); } };
static int verif_ok_times = 0; // how often a loop goes on
inline bool ok() { return verif_ok_times-- > 0; }
struct Subscriber {};
template <class M> struct verif_connected { static std::map<std::string, std::function<void(const boost::shared_ptr<M> &)>> &all() { static auto &v = *new std::map<std::string, std::function<void(const boost::shared_ptr<M> &)>>; return v; } };
static std::vector<std::string> verif_topics; // those that are advertised
struct NodeHandle {
  template <class M> Publisher advertise(const std::string &n, uint32_t) { verif_topics.push_back(n); return {}; }
  template <class M> Subscriber subscribe(const std::string &n, uint32_t, void (*f)(boost::shared_ptr<M>)) { verif_connected<M>::all()[n] = f; return {}; }
  bool ok() const { return ros::ok(); }
};
namespace message_traits {
template <class M> struct FrameId { static std::string value(const M &m) { return m.header.frame_id; } };
template <class M> struct TimeStamp { static Time value(const M &m) { return m.header.stamp; } };
}
// parameters are texts or numbers or flags
struct verif_param { int kind; std::string text; double number; };
static std::map<std::string, verif_param> verif_params;
namespace param {
inline void put(const verif_param &p, std::string &v, int &ok) { if (p.kind == 0) { v = p.text; ok = 1; } }
inline void put(const verif_param &p, double &v, int &ok) { if (p.kind == 1 || p.kind == 2) { v = p.number; ok = 1; } }
inline void put(const verif_param &p, int &v, int &ok) { if (p.kind == 1) { v = (int)p.number; ok = 1; } }
inline void put(const verif_param &p, bool &v, int &ok) { if (p.kind == 3) { v = p.number != 0; ok = 1; } }
template <class T> bool param(const std::string &n, T &v, const T &dflt) {
  int ok = 0; auto i = verif_params.find(n);
  if (i != verif_params.end()) put(i->second, v, ok);
  if (!ok) v = dflt;
  return ok;
}
inline void set(const std::string &n, const std::string &v) { verif_params[n] = {0, v, 0}; }
}
}
#define ROS_ERROR(...) ((void)0)
#define ROS_WARN(...) ((void)0)
#define ROS_INFO(...) ((void)0)
