// C02: copies of a lazily tiled map are independent of each other.
#include "verif.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
using Coord = RegularSquaresGrid::Coord;
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
struct OrderCell : GridCell {
  OrderCell(double v) : GridCell{Occupancy{v, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<OrderCell>(*this); }
  void operator+=(const AreaOccupancyObservation &aoo) override {
    _occupancy.prob_occ = 0.5 * _occupancy.prob_occ + aoo.occupancy.prob_occ;
    on_update();
  }
};
static const double Proto = 0.375;
struct Op { Coord c; bool reset; double v; };
static AreaOccupancyObservation obs(double v) { return AreaOccupancyObservation{true, Occupancy{v, 1}, Point2D{0, 0}, 1}; }
static double apply_model(double v, const Op &o, const Coord &q) { return o.c == q ? (o.reset ? o.v : 0.5 * v + o.v) : v; }
static void apply(GridMap &m, const Op &o) { if (o.reset) m.reset(o.c, OrderCell{o.v}); else m.update(o.c, obs(o.v)); }
static Op mk(const char *x, const char *y, const char *v, const char *r, int lx, int hx, int ly, int hy) {
  Op o; o.c = Coord{(int)verif_int(x, lx, hx), (int)verif_int(y, ly, hy)};
  o.reset = verif_choose(r, 2); o.v = verif_grid(v, 0, 1, 1.0 / 1024); return o;
}
template <typename M> static void run(int w, int h, int lx, int hx, int ly, int hy, bool pre, bool assign) {
  auto &a = *new M(std::make_shared<OrderCell>(Proto), GridMapParams{w, h, 0.5});
  Op o0{Coord{0, 0}, true, 0.25};
  if (pre) { o0 = mk("x0", "y0", "v0", "r0", lx, hx, ly, hy); apply(a, o0); }
  M *pb;
  if (assign) { pb = new M(std::make_shared<OrderCell>(0.875), GridMapParams{1, 1, 1}); *pb = a; }
  else pb = new M(a);
  M &b = *pb;
  Op oa = mk("xa", "ya", "va", "ra", lx, hx, ly, hy), ob = mk("xb", "yb", "vb", "rb", lx, hx, ly, hy);
  bool b_first = verif_choose("order", 2);
  if (b_first) { apply(b, ob); apply(a, oa); } else { apply(a, oa); apply(b, ob); }
  Coord q{(int)verif_int("qx", lx, hx), (int)verif_int("qy", ly, hy)};
  double v = pre ? apply_model(Proto, o0, q) : Proto;
  verif_check(a[q].occupancy().prob_occ == apply_model(v, oa, q), "the original does not hold the value of its own operations");
  verif_check(b[q].occupancy().prob_occ == apply_model(v, ob, q), "the copy does not hold the value of its own operations");
  verif_observe_d("a", a[q].occupancy().prob_occ);
}
VERIF_ENTRY(c02_bounded) { run<LazyTiledGridMap>(130, 6, T ? 40 : 58, 64, 0, T ? 2 : 0, true, false); }
VERIF_ENTRY(c02_unbounded) { run<UnboundedLazyTiledGridMap>(2, 2, T ? -80 : -70, T ? 80 : 60, 0, 0, true, false); }
VERIF_ENTRY(c02_grow) { run<UnboundedLazyTiledGridMap>(2, 2, T ? -300 : -140, T ? 300 : 140, 0, 0, false, false); }
VERIF_ENTRY(c02_assign) { run<UnboundedLazyTiledGridMap>(2, 2, -5, 5, 0, 0, true, true); }
// a chain of copies: the middle one is changed
VERIF_ENTRY(c02_chain) {
  const int R = T ? 20 : 3;
  auto &a = *new UnboundedLazyTiledGridMap(std::make_shared<OrderCell>(Proto), GridMapParams{4, 4, 0.5});
  Op o0 = mk("x0", "y0", "v0", "r0", -R, R, 0, 0), o1 = mk("x1", "y1", "v1", "r1", -R, R, 0, 0), o2 = mk("x2", "y2", "v2", "r2", -R, R, 0, 0);
  apply(a, o0);
  auto &b = *new UnboundedLazyTiledGridMap(a);
  apply(b, o1);
  auto &c = *new UnboundedLazyTiledGridMap(b);
  int who = verif_choose("who", 3);
  apply(who == 0 ? a : who == 1 ? b : c, o2);
  Coord q{(int)verif_int("qx", -R, R), 0};
  double va = apply_model(Proto, o0, q), vb = apply_model(va, o1, q), vc = vb;
  if (who == 0) va = apply_model(va, o2, q); else if (who == 1) vb = apply_model(vb, o2, q); else vc = apply_model(vc, o2, q);
  verif_check(a[q].occupancy().prob_occ == va, "first map of a chain of copies changed");
  verif_check(b[q].occupancy().prob_occ == vb, "second map of a chain of copies changed");
  verif_check(c[q].occupancy().prob_occ == vc, "third map of a chain of copies changed");
}
// copies that grow far in different directions
VERIF_ENTRY(c02_far) {
  static const int P[][2] = {{70001, 0}, {-40000, 3}, {1, -33000}, {130, 40000}};
  auto &p = P[verif_choose("far", 4)];
  auto &a = *new UnboundedLazyTiledGridMap(std::make_shared<OrderCell>(Proto), GridMapParams{2, 2, 0.5});
  std::vector<Op> oa, ob;
  oa.push_back(mk("x0", "y0", "v0", "r0", 0, 1, 0, 0)); apply(a, oa[0]);
  auto &b = *new UnboundedLazyTiledGridMap(a); ob = oa;
  static const Op Far{Coord{300, -200}, false, 0.5};
  Op o{Coord{p[0], p[1]}, false, verif_grid("v1", 0, 1, 1.0 / 1024)}; ob.push_back(o); apply(b, o);
  oa.push_back(Far); apply(a, Far);
  o = Op{Coord{0, 0}, true, verif_grid("v2", 0, 1, 1.0 / 1024)};
  if (verif_choose("again", 2)) { ob.push_back(o); apply(b, o); } else { oa.push_back(o); apply(a, o); }
  for (auto &q : {Coord{0, 0}, Coord{1, 0}, Far.c, Coord{p[0], p[1]}, Coord{p[0] - 1, p[1]}, Coord{p[0] & 127, p[1] & 127}, Coord{-1, -1}}) {
    double va = Proto, vb = Proto;
    for (auto &e : oa) va = apply_model(va, e, q);
    for (auto &e : ob) vb = apply_model(vb, e, q);
    verif_check(a[q].occupancy().prob_occ == va, "the original does not hold the value of its own operations");
    verif_check(b[q].occupancy().prob_occ == vb, "the copy does not hold the value of its own operations");
  }
}
