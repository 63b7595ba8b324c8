// C07: cell estimates stay probabilities and ignore invalid observations.
#include "verif.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "slams/credibilist/grid_cell.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double NaN = std::numeric_limits<double>::quiet_NaN();
using Aoo = AreaOccupancyObservation;
struct Obs { double p, eq, q; Point2D at; };
static Aoo aoo(const Obs &o) { return Aoo{o.p > 0.5, Occupancy{o.p, o.eq}, o.at, o.q}; }
static double prob(const char *n) { return verif_grid(n, 0, 1, 1.0 / 1024); }
static Aoo invalid(const char *n) {
  switch (verif_choose(n, 3)) {
    case 0: return Aoo{true, Occupancy::invalid(), Point2D{1, 2}, 1};
    case 1: return Aoo{false, Occupancy{NaN, 0.5}, Point2D{1, 2}, 0.5};
    default: return Aoo{true, Occupancy{0.75, NaN}, Point2D{1, 2}, 1};
  }
}
// the probe observations a cell is compared with
static const Aoo Probe[2] = {Aoo{true, Occupancy{0.875, 0.75}, Point2D{0.25, 0.5}, 0.5}, Aoo{false, Occupancy{0.125, 0.75}, Point2D{0, 0}, 1}};
static void same(const GridCell &a, const GridCell &b, const char *what) {
  verif_check(a.is_unknown() == b.is_unknown(), what);
  double pa = a.occupancy().prob_occ, pb = b.occupancy().prob_occ, qa = a.occupancy().estimation_quality, qb = b.occupancy().estimation_quality;
  verif_check(vand(pa == pb, qa == qb), what);
  verif_check(a.discrepancy(Probe[0]) == b.discrepancy(Probe[0]), what);
}
static double Eps = 1e-9;
static int is_prob(double p) { return vand(p >= -Eps, p <= 1 + Eps); }
static void check_prob(const GridCell &c) {
  verif_check(is_prob(c.occupancy().prob_occ), "the stored occupancy is no probability");
  verif_check(is_prob(c.occupancy().estimation_quality), "the estimation quality is not in [0, 1]");
  verif_check(!c.is_unknown(), "an observed cell is unknown");
  verif_check(double(c) == c.occupancy().prob_occ, "the cell's value is not its occupancy");
}
template <typename C> static C *fresh() {
  auto &c = *new C();
  verif_check(c.is_unknown(), "a new cell is known");
  return &c;
}
// n valid observations with model check(i, cell); invalid ones and clones in between
template <typename C, typename F> static void history(int n, F &&next, int at = -1) {
  C &c = *fresh<C>();
  int when = at < 0 || T ? verif_choose("when", n + 1) : at;
  for (int i = 0; i <= n; ++i) {
    if (i == when) {
      auto before = c.clone();
      c += invalid("inv");
      same(c, *before, "an invalid observation changed the cell");
      verif_check(c.is_unknown() == (i == 0), "an invalid observation changed whether the cell is known");
    }
    if (i < n) { next(i, c); check_prob(c); }
  }
  verif_observe_d("p", c.occupancy().prob_occ);
}
static const char *PN[] = {"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9"}, *QN[] = {"q0", "q1", "q2", "q3", "q4", "q5", "q6", "q7", "q8", "q9"};
static const double Qs[] = {1, 0.5, 0, 0.25, 0.8125};
VERIF_ENTRY(c07_mean) {
  double sum = 0;
  history<MeanProbabilityCell>(T ? 5 : 4, [&](int i, GridCell &c) {
    Obs o{prob(PN[i]), 1, prob(QN[i]), {0, 0}};
    c += aoo(o);
    sum += 0.5 + (o.p - 0.5) * o.q;
    verif_check(vnear(c.occupancy().prob_occ * (i + 1), sum, 1e-9), "the estimate is not the mean of the valid observations");
  });
}
VERIF_ENTRY(c07_mean_long) {
  auto &c = *new MeanProbabilityCell();
  double sum = 0;
  for (int i = 0; i < (T ? 24 : 12); ++i) {
    Obs o{i < 10 ? prob(PN[i]) : 0.25, 1, Qs[i % 5], {0, 0}};
    c += aoo(o);
    if (i % 3 == 0) c += invalid("inv");
    sum += 0.5 + (o.p - 0.5) * o.q;
    verif_check(vnear(c.occupancy().prob_occ * (i + 1), sum, 1e-8), "the estimate is not the mean of the valid observations");
    check_prob(c);
  }
}
VERIF_ENTRY(c07_affine) {
  double m = 0.5;
  history<AffineQualityMergeCell>(2, [&](int i, GridCell &c) {
    Obs o{prob(PN[i]), 1, prob(QN[i]), {0, 0}};
    c += aoo(o);
    m = m * (1 - o.q) + o.q * o.p;
    verif_check(vnear(c.occupancy().prob_occ, m, 1e-9), "the estimate is not the quality-weighted blend");
  });
}
VERIF_ENTRY(c07_affine_long) {
  double m = 0.5;
  history<AffineQualityMergeCell>(T ? 8 : 5, [&](int i, GridCell &c) {
    Obs o{prob(PN[i]), 1, Qs[(i + 1) % 5], {0, 0}};
    c += aoo(o);
    m = m * (1 - o.q) + o.q * o.p;
    verif_check(vnear(c.occupancy().prob_occ, m, 1e-9), "the estimate is not the quality-weighted blend");
  });
}
VERIF_ENTRY(c07_base) {
  auto &c = *new GridCell(Occupancy{prob("p0"), prob("e0")});
  verif_check(c.is_unknown(), "a new cell is known");
  Obs o{prob("p1"), prob("e1"), prob("q1"), {1, 1}};
  double p0 = c.occupancy().prob_occ, d = c.discrepancy(aoo(o));
  verif_check(vand(vor(d == p0 - o.p, d == o.p - p0), d >= 0), "discrepancy of a base cell");
  auto k = c.clone();
  c += aoo(o);
  check_prob(c);
  verif_check(vand(c.occupancy().prob_occ == o.p, c.occupancy().estimation_quality == o.eq), "a base cell does not hold the last observation");
  verif_check(vand(k->occupancy().prob_occ == p0, k->is_unknown()), "a clone changed with its original");
}
VERIF_ENTRY(c07_gmapping) {
  double sum = 0, ox = 0, oy = 0; int hits = 0;
  const double X[] = {0.25, 1.5}, Y[] = {-0.75, 0.125};
  history<GmappingBaseCell>(T ? 4 : 3, [&](int i, GridCell &c) {
    int at = verif_choose("at", 2);
    Obs o{prob(PN[i]), 1, 1, {X[at], Y[at]}};
    bool occ = verif_fork(o.p > 0.5);
    c += aoo(o);
    if (occ) { sum += o.p; ox += o.at.x; oy += o.at.y; ++hits; }
    verif_check(vnear(c.occupancy().prob_occ * (i + 1), sum, 1e-9), "the estimate is not the hit ratio");
    double mx = hits ? ox / hits : 0, my = hits ? oy / hits : 0;
    double d = c.discrepancy(Probe[0]), ex = (mx - 0.25) * (mx - 0.25) + (my - 0.5) * (my - 0.5);
    verif_check(vnear(d, 1 - std::exp(-ex / 0.05), 1e-9), "the discrepancy is not based on the mean hit");
  });
}
template <typename C> static double tbm_value(const TBM &b);
template <> double tbm_value<TbmUnknownEvenOccCell>(const TBM &b) { return b.occupied() + 0.5 * b.unknown(); }
template <> double tbm_value<CredibilistCell>(const TBM &b) { return b.occupied() + 0.5 * b.unknown(); }
template <> double tbm_value<TbmOccConsistentCell>(const TBM &b) { return b.occupied(); }
// the fused belief is recomputed by Dempster's rule for the frame {free, occupied}
enum Mode { SYM_Q, SYM_P, CONCRETE };
template <typename C> static void tbm(int n, Mode mode) {
  double mu = 1, me = 0, mo = 0; Eps = 1e-7;
  history<C>(n, [&](int i, GridCell &gc) {
    C &c = static_cast<C &>(gc);
    static const double Ps[] = {0, 1, 0.5, 0.8125};
    Obs o{0, 1, 1, {0, 0}};
    if (mode == CONCRETE) { o.p = Ps[verif_choose(PN[i], T ? 4 : 3)]; o.q = Qs[verif_choose(QN[i], T ? 3 : 2)]; }
    else {  // some ignorance remains, which bounds the normalisation away from zero
      o.eq = i % 2 ? 0.75 : 0.5; o.p = prob(PN[i]);
      o.q = mode == SYM_Q && i == 0 ? prob(QN[i]) : Qs[verif_choose(QN[i], 3)];
    }
    c += aoo(o);
    double oo = o.p * o.eq * o.q, oe = (1 - o.p) * o.eq * o.q, ou = 1 - oo - oe;
    double nu = mu * ou, ne = mu * oe + me * ou + me * oe, no = mu * oo + mo * ou + mo * oo, w = nu + ne + no;
    auto &b = c.belief();
    verif_check(b.conflict() == 0, "mass left on the conflict");
    if (mode == CONCRETE && w == 0) { nu = 1; ne = no = 0; w = 1; }
    verif_check(vand(vnear(b.unknown() * w, nu, 1e-7), vnear(b.empty() * w, ne, 1e-7), vnear(b.occupied() * w, no, 1e-7)), "the belief is not the fusion of the observations");
    mu = b.unknown(); me = b.empty(); mo = b.occupied();
    verif_check(vand(is_prob(mu), is_prob(me), is_prob(mo)), "a mass is no probability");
    auto occ = c.occupancy();
    verif_check(!std::isnan(occ.prob_occ), "the stored occupancy is NaN");
    if (std::is_same<C, TbmOccConsistentCell>::value) {
      verif_check(vnear(occ.estimation_quality, mo + me, 1e-7), "the quality is not the known mass");
      verif_check(vnear(occ.prob_occ * (mo + me), mo, 1e-7), "the occupancy is not the share of the occupied mass");
    } else verif_check(vand(vnear(occ.prob_occ, mo + 0.5 * mu, 1e-7), occ.estimation_quality == 1), "the occupancy does not follow the belief");
  }, mode == SYM_P ? 1 : -1);
}
VERIF_ENTRY(c07_tbm_even) { tbm<TbmUnknownEvenOccCell>(2, SYM_P); }
VERIF_ENTRY(c07_tbm_consistent) { tbm<TbmOccConsistentCell>(2, SYM_P); }
VERIF_ENTRY(c07_credibilist) { tbm<CredibilistCell>(2, SYM_P); }
VERIF_ENTRY(c07_tbm_q) { tbm<TbmUnknownEvenOccCell>(1, SYM_Q); }
VERIF_ENTRY(c07_tbm_even_conc) { tbm<TbmUnknownEvenOccCell>(3, CONCRETE); }
VERIF_ENTRY(c07_tbm_consistent_conc) { tbm<TbmOccConsistentCell>(3, CONCRETE); }
VERIF_ENTRY(c07_credibilist_conc) { tbm<CredibilistCell>(3, CONCRETE); }
// a clone reacts as the original would, and neither influences the other
template <typename C> static void clones() {
  auto &c = *new C();
  int n = verif_choose("n", 3);
  for (int i = 0; i < n; ++i) c += aoo(Obs{i ? prob("p0") : 0.75, 0.75, i ? 0.5 : 1, {0.5, 0.25}});
  auto twin = *new C(c); // compiler-made copy of the state
  auto k = c.clone();
  same(c, *k, "a clone differs from its original");
  Obs o{prob("p1"), 0.5, 0.75, {0.125, 0.25}};
  if (verif_choose("who", 2)) { *k += aoo(o); same(c, twin, "updating a clone changed the original"); c += aoo(o); }
  else { c += aoo(o); same(*k, twin, "updating the original changed its clone"); *k += aoo(o); }
  same(c, *k, "a clone reacts differently");
  if (n == 2) return;
  c += Probe[1]; *k += Probe[1];
  same(c, *k, "a clone reacts differently later");
}
VERIF_ENTRY(c07_clone) {
  switch (verif_choose("model", 6)) {
    case 0: clones<MeanProbabilityCell>(); break;
    case 1: clones<AffineQualityMergeCell>(); break;
    case 2: clones<GmappingBaseCell>(); break;
    case 3: clones<TbmUnknownEvenOccCell>(); break;
    case 4: clones<TbmOccConsistentCell>(); break;
    default: clones<CredibilistCell>();
  }
}
// discrepancies are normalised
template <typename C> static void discr() {
  auto &c = *new C();
  int n = verif_choose("n", 2);
  if (n) c += aoo(Obs{prob("p0"), 1, 0.75, {0, 0}});
  double d = c.discrepancy(aoo(Obs{prob("p1"), 1, verif_choose("q1", 2) ? 1 : 0.5, {0, 0}}));
  verif_check(is_prob(d), "a discrepancy is not in [0, 1]");
}
VERIF_ENTRY(c07_discrepancy) {
  switch (verif_choose("model", 5)) {
    case 0: discr<MeanProbabilityCell>(); break;
    case 1: discr<AffineQualityMergeCell>(); break;
    case 2: discr<TbmUnknownEvenOccCell>(); break;
    case 3: discr<TbmOccConsistentCell>(); break;
    default: discr<CredibilistCell>();
  }
}
// long histories: 300 (thorough: 70000) concrete observations, then an arbitrary one
template <typename C, typename F> static void many(F &&ref) {
  auto &c = *new C(); const int N = 70000;
  for (int i = 0; i < N; ++i) { Obs o{i % 7 ? 0.25 : 0.75, 1, i % 3 ? 1 : 0.5, {0.25 * (i % 3), 0.5}}; c += aoo(o); ref(o); }
  check_prob(c);
  Obs o{prob("p0"), 1, 0.5, {1, 2}};
  c += invalid("inv");
  c += aoo(o);
  double e = ref(o);
  verif_check(vnear(c.occupancy().prob_occ, e, 1e-7), "the estimate after many observations");
  check_prob(c);
}
VERIF_ENTRY(c07_many) {
  double sum = 0, m = 0.5; int n = 0;
  switch (verif_choose("model", 3)) {
    case 0: many<MeanProbabilityCell>([&](const Obs &o) { sum += 0.5 + (o.p - 0.5) * o.q; return sum / ++n; }); break;
    case 1: many<AffineQualityMergeCell>([&](const Obs &o) { return m = m * (1 - o.q) + o.q * o.p; }); break;
    default: many<GmappingBaseCell>([&](const Obs &o) { if (verif_fork(o.p > 0.5)) sum += o.p; return sum / ++n; });
  }
}
