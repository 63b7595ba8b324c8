// C08: belief fusion obeys the laws of evidence combination.
#include "verif.h"
#include "core/maps/tbm_grid_cells.h"
#include "slams/credibilist/grid_cell.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
static const double Eps = 1e-7;
static int is_prob(double p) { return vand(p >= -Eps, p <= 1 + Eps); }
struct B { double u, e, o, c; };
static TBM tbm(const B &b) { return TBM{b.u, b.e, b.o, b.c}; }
static B masses(const TBM &t) { return {t.unknown(), t.empty(), t.occupied(), t.conflict()}; }
static const char *N[] = {"a", "b", "c"};
// every distribution over {unknown, empty, occupied(, conflict)} on a 1/64 lattice
static B belief(int i, bool conflict) {
  std::string s = N[i];
  B b{0, verif_grid((s + "e").c_str(), 0, 1, 1.0 / 64), verif_grid((s + "o").c_str(), 0, 1, 1.0 / 64), conflict ? verif_grid((s + "c").c_str(), 0, 1, 1.0 / 64) : 0};
  verif_assume(b.e + b.o + b.c <= 1);
  b.u = 1 - b.e - b.o - b.c;
  return b;
}
static B some(int i) {
  static const B S[] = {{1, 0, 0, 0}, {0.5, 0.25, 0.25, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0.25, 0, 0.75, 0}, {0.125, 0.625, 0.25, 0}, {0, 0.5, 0.5, 0}, {0.5, 0, 0, 0.5}, {0.25, 0.25, 0.25, 0.25}, {0, 0, 0, 1}};
  return S[verif_choose(N[i], T ? 10 : 9)];
}
static int near4(const B &a, const B &b) { return vand(vnear(a.u, b.u, Eps), vnear(a.e, b.e, Eps), vnear(a.o, b.o, Eps), vnear(a.c, b.c, Eps)); }
static void distribution(const TBM &t, const char *what) {
  verif_check(vand(is_prob(t.unknown()), is_prob(t.empty()), is_prob(t.occupied()), is_prob(t.conflict())), what);
  verif_check(vnear(t.unknown() + t.empty() + t.occupied() + t.conflict(), 1, Eps), what);
}
static B conj(const B &a, const B &b) {
  return {a.u * b.u, a.u * b.e + a.e * b.u + a.e * b.e, a.u * b.o + a.o * b.u + a.o * b.o,
          a.c + b.c - a.c * b.c + a.e * b.o + a.o * b.e};
}
static B disj(const B &a, const B &b) {
  return {a.u + b.u - a.u * b.u + a.e * b.o + a.o * b.e, a.e * b.e + a.e * b.c + a.c * b.e, a.o * b.o + a.o * b.c + a.c * b.o, a.c * b.c};
}
static void pair(const B &a, const B &b) {
  TBM x = tbm(a), y = tbm(b);
  auto c = conjunctive(x, y), d = disjunctive(x, y);
  distribution(c, "a conjunctive combination is no distribution");
  distribution(d, "a disjunctive combination is no distribution");
  verif_check(near4(masses(c), conj(a, b)), "conjunctive combination");
  verif_check(near4(masses(d), disj(a, b)), "disjunctive combination");
  verif_check(vand(x.unknown() == a.u, y.unknown() == b.u, x.empty() == a.e, y.occupied() == b.o), "combining changed an operand");
  verif_check(near4(masses(c), masses(conjunctive(y, x))), "conjunctive combination depends on the order");
  verif_check(near4(masses(d), masses(disjunctive(y, x))), "disjunctive combination depends on the order");
  verif_observe_d("cu", c.unknown());
}
VERIF_ENTRY(c08_pair) { B a = belief(0, true), b = some(1); pair(a, b); }
VERIF_ENTRY(c08_pair_sym) { B a = belief(0, false), b = belief(1, false); pair(a, b); }
VERIF_ENTRY(c08_neutral) {
  B a = belief(0, true), v{1, 0, 0, 0};
  verif_check(near4(masses(conjunctive(tbm(a), TBM())), a), "a vacuous belief changed the other one");
  verif_check(near4(masses(conjunctive(TBM(), tbm(a))), a), "a belief combined into a vacuous one changed");
  verif_check(near4(masses(TBM()), v), "the default belief is not vacuous");
  verif_check(near4(masses(disjunctive(tbm(a), TBM())), v), "disjunction with ignorance is not ignorance");
  verif_check(near4(masses(disjunctive(tbm(a), TBM(0, 0, 0, 1))), a), "disjunction with the conflict is not neutral");
}
VERIF_ENTRY(c08_associative) {
  B a = belief(0, false), b = some(1), c = some(2);
  auto l = conjunctive(conjunctive(tbm(a), tbm(b)), tbm(c)), r = conjunctive(tbm(a), conjunctive(tbm(b), tbm(c)));
  verif_check(near4(masses(l), masses(r)), "conjunctive combination depends on the grouping");
}
// any non-negative masses
VERIF_ENTRY(c08_normalize) {
  // all but the conflict may be tiny
  static const double M[] = {1, 1.0 / 1024, 1.0 / 1048576};
  const double m = M[verif_choose("magnitude", 3)], q = m / 64;
  B b{verif_grid("u", 0, 4 * m, q), verif_grid("e", 0, 4 * m, q), verif_grid("o", 0, 4 * m, q), verif_grid("c", 0, 4, q)};
  TBM t = tbm(b);
  double w = b.u + b.e + b.o + b.c, k = w - b.c;
  if (verif_choose("conflict", 2)) {
    t.normalize_conflict();
    verif_check(t.conflict() == 0, "mass left on the conflict");
    if (k == 0) verif_check(near4(masses(t), {1, 0, 0, 0}), "a total contradiction is not reset to ignorance");
    else verif_check(vand(vnear(t.unknown() * k, b.u, Eps * m), vnear(t.empty() * k, b.e, Eps * m), vnear(t.occupied() * k, b.o, Eps * m)), "normalisation changed the proportions");
  } else {
    t.normalize();
    if (w == 0) verif_check(near4(masses(t), {1, 0, 0, 0}), "no mass at all is not reset to ignorance");
    else { const double eps = m < 1e-5 ? 1e-6 : Eps;
      verif_check(vand(vnear(t.unknown() * w, b.u, eps), vnear(t.empty() * w, b.e, eps), vnear(t.occupied() * w, b.o, eps), vnear(t.conflict() * w, b.c, eps)), "normalisation changed the proportions"); }
  }
  verif_check(vand(is_prob(t.unknown()), is_prob(t.empty()), is_prob(t.occupied()), is_prob(t.conflict())), "a normalised mass is no probability");
  verif_check(vnear(t.unknown() + t.empty() + t.occupied() + t.conflict(), 1, Eps), "normalised masses do not sum to one");
}
// observation -> belief -> occupancy, through the cells
template <typename C> static void convert() {
  double p = verif_grid("p", 0, 1, 1.0 / 1024), e = verif_choose("e", 2) ? 1 : 0.5, q = verif_grid("q", 0, 1, 1.0 / 1024);
  auto &c = *new C();
  c += AreaOccupancyObservation{true, Occupancy{p, e}, Point2D{0, 0}, q};
  auto &b = c.belief();
  distribution(b, "the belief of an observed cell is no distribution");
  verif_check(vand(vnear(b.occupied(), p * e * q, Eps), vnear(b.empty(), (1 - p) * e * q, Eps)), "belief of a single observation");
  double o = c.occupancy().prob_occ;
  verif_check(is_prob(o), "the occupancy of a belief is no probability");
  verif_check(vimp(b.occupied() > b.empty() + Eps, o >= 0.5 - Eps), "mostly occupied evidence yields a free cell");
  verif_check(vimp(b.occupied() + Eps < b.empty(), o <= 0.5 + Eps), "mostly free evidence yields an occupied cell");
  double d = c.discrepancy(AreaOccupancyObservation{true, Occupancy{1, 1}, Point2D{0, 0}, 1});
  verif_check(is_prob(d), "a discrepancy is not in [0, 1]");
}
VERIF_ENTRY(c08_convert) {
  switch (verif_choose("model", 3)) {
    case 0: convert<TbmUnknownEvenOccCell>(); break;
    case 1: convert<TbmOccConsistentCell>(); break;
    default: convert<CredibilistCell>();
  }
}
// more evidence for an obstacle never lowers the occupancy
template <typename C> static void monotone() {
  double p = verif_grid("p", 0, 1, 1.0 / 256), d = verif_grid("d", 0, 1, 1.0 / 256), e = verif_choose("e", 2) ? 0.75 : 0.5;
  verif_assume(p + d <= 1);
  auto &a = *new C(), &b = *new C();
  double first[] = {0.5, 0, 1, 0.75};
  int f = verif_choose("first", 4);
  for (auto c : {&a, &b}) *c += AreaOccupancyObservation{true, Occupancy{first[f], 0.5}, Point2D{0, 0}, 1};
  a += AreaOccupancyObservation{true, Occupancy{p, e}, Point2D{0, 0}, 1};
  b += AreaOccupancyObservation{true, Occupancy{p + d, e}, Point2D{0, 0}, 1};
  verif_check(b.occupancy().prob_occ >= a.occupancy().prob_occ - Eps, "stronger evidence lowered the occupancy");
}
VERIF_ENTRY(c08_monotone) {
  switch (verif_choose("model", 3)) {
    case 0: monotone<TbmUnknownEvenOccCell>(); break;
    case 1: monotone<TbmOccConsistentCell>(); break;
    default: monotone<CredibilistCell>();
  }
}
// the free functions of the credibilist pipeline
VERIF_ENTRY(c08_credibilist) {
  B a = belief(0, false);
  double o = TBM_to_O(tbm(a)).prob_occ;
  verif_check(vand(vnear(o, a.o + 0.5 * a.u, Eps), is_prob(o)), "belief to occupancy");
  double p = verif_grid("p", 0, 1, 1.0 / 64), q = verif_grid("q", 0, 1, 1.0 / 64), e = verif_grid("e", 0, 1, 1.0 / 64);
  auto t = AOO_to_TBM(AreaOccupancyObservation{false, Occupancy{p, e}, Point2D{0, 0}, q});
  verif_check(vand(vnear(t.occupied(), p * q * e, Eps), vnear(t.empty(), (1 - p) * q * e, Eps), vnear(t.unknown(), 1 - q * e, Eps), t.conflict() == 0), "observation to belief");
  auto i = AOO_to_TBM(AreaOccupancyObservation{false, Occupancy::invalid(), Point2D{0, 0}, q});
  verif_check(near4(masses(i), {1, 0, 0, 0}), "an invalid observation carries evidence");
}
