// The sources of randomness become symbolic values: a normal variate is mean + stddev * z for a
// fresh z in [-4, 4] (1/64 lattice), a uniform one any value of a lattice in [from, to).
// Include before any repository header.
#pragma once
#include "verif.h"
struct VerifDraw { double a, b, v; unsigned long word; }; // word: of the generator
static std::vector<VerifDraw> verif_draws;     // every variate with its parameters
static std::vector<unsigned long> verif_seeds; // every generator created
static bool verif_fixed_draws = false; // variates are a fixed point of their distribution
static double verif_uniform_q = 1.0 / 64, verif_normal_q = 1.0 / 64;
static const char *verif_draw_name(const char *k) { static const char *N[] = {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"}; size_t i = verif_draws.size(); return i < 16 ? N[i] : k; }
namespace std {
struct verif_engine {
  typedef unsigned long result_type;
  unsigned long s;
  explicit verif_engine(unsigned long seed = 5489) : s(seed) { verif_seeds.push_back(seed); }
  void seed(unsigned long x) { s = x; verif_seeds.push_back(x); }
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { return s = s * 6364136223846793005ul + 1442695040888963407ul & 0xffffffffu; }
};
static unsigned verif_device_n = 0;
struct verif_device { typedef unsigned result_type; unsigned operator()() { return 12345 + 7919 * verif_device_n++; } }; // never repeats a value
template <class R = double> struct verif_normal {
  double m, s;
  explicit verif_normal(double mean = 0, double dev = 1) : m(mean), s(dev) {}
  template <class E> double operator()(E &e) {
    double z = verif_fixed_draws ? 0.5 : verif_grid(verif_draw_name("rn"), -4, 4, verif_normal_q), v = m + s * z;
    verif_draws.push_back({m, s, v, e()}); return v;
  }
  void reset() {}
};
template <class R = double> struct verif_uniform {
  double a, b;
  explicit verif_uniform(double from = 0, double to = 1) : a(from), b(to) {}
  template <class E> double operator()(E &e) {
    double z = verif_fixed_draws ? 0.5 : verif_grid(verif_draw_name("ru"), 0, 1 - verif_uniform_q, verif_uniform_q), v = a + (b - a) * z;
    verif_draws.push_back({a, b, v, e()}); return v;
  }
  void reset() {}
};
}
#define mt19937 verif_engine
#define mt19937_64 verif_engine
#define default_random_engine verif_engine
#define minstd_rand verif_engine
#define random_device verif_device
#define normal_distribution verif_normal
#define uniform_real_distribution verif_uniform
