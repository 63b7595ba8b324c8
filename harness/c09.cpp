// C09: saving and loading a cell or a map reproduces it exactly.
#include "verif.h"
#include "core/serialization.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "slams/credibilist/grid_cell.h"
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
using Coord = RegularSquaresGrid::Coord;
using Aoo = AreaOccupancyObservation;
static double prob(const char *n) { return verif_grid(n, 0, 1, 1.0 / 1024); }
static Aoo aoo(double p, double e, double q, Point2D at = Point2D{0.125, 0.25}) { return Aoo{p > 0.5, Occupancy{p, e}, at, q}; }
static const Aoo Probe[2] = {Aoo{true, Occupancy{0.875, 0.75}, Point2D{0.25, 0.5}, 0.5}, Aoo{false, Occupancy{0.125, 0.75}, Point2D{0, 0}, 1}};
static void same(const GridCell &a, const GridCell &b, const char *what) {
  verif_check(a.is_unknown() == b.is_unknown(), what);
  double pa = a.occupancy().prob_occ, pb = b.occupancy().prob_occ, qa = a.occupancy().estimation_quality, qb = b.occupancy().estimation_quality;
  verif_check(vand(pa == pb, qa == qb), what);
  verif_check(a.discrepancy(Probe[0]) == b.discrepancy(Probe[0]), what);
}
static const char *PN[] = {"p0", "p1", "p2", "p3"};
template <typename C> static void feed(GridCell &c, int n, int k) {
  for (int i = 0; i < n; ++i) c += aoo(i + k == 0 ? prob(PN[i + k]) : 0.75, 0.75, i ? 0.5 : 1, Point2D{0.5 * i, 0.25});
}
template <typename C> static void cell(bool belief = false) {
  auto &a = *new C(), &b = *new C();
  int n = verif_choose("n", 3);
  feed<C>(a, n, 0);
  feed<C>(b, verif_choose("m", 2), 2); // loading replaces whatever the cell knew
  auto bytes = a.serialize();
  std::vector<char> buf(verif_choose("skip", 2) ? 5 : 0, 'x');
  size_t pos = buf.size();
  buf.insert(buf.end(), bytes.begin(), bytes.end());
  buf.insert(buf.end(), 3, 'y');
  size_t end = pos ? b.deserialize(buf, pos) : b.deserialize(buf);
  verif_check(end == pos + bytes.size(), "a cell does not consume exactly its own bytes");
  same(a, b, "a loaded cell differs from the saved one");
  verif_check(a.serialize() == b.serialize(), "a loaded cell is saved differently");
  Aoo o = aoo(belief ? 0.625 : prob("p3"), 0.5, 0.75);
  a += o; b += o;
  same(a, b, "a loaded cell reacts differently to an observation");
  if (n == 2) return;
  a += Probe[1]; b += Probe[1];
  same(a, b, "a loaded cell reacts differently to later observations");
}
VERIF_ENTRY(c09_cell) {
  switch (verif_choose("model", 6)) {
    case 0: cell<MeanProbabilityCell>(); break;
    case 1: cell<AffineQualityMergeCell>(); break;
    case 2: cell<GmappingBaseCell>(); break;
    case 3: cell<TbmUnknownEvenOccCell>(true); break;
    case 4: cell<TbmOccConsistentCell>(true); break;
    default: cell<CredibilistCell>(true);
  }
}
VERIF_ENTRY(c09_base_cell) {
  auto &a = *new GridCell(Occupancy{prob("p0"), prob("e0")}), &b = *new GridCell(Occupancy{prob("p1"), prob("e1")});
  if (verif_choose("known", 2)) a += aoo(prob("p2"), 1, 1);
  if (verif_choose("bknown", 2)) b += aoo(prob("p3"), 1, 1);
  auto bytes = a.serialize();
  verif_check(b.deserialize(bytes) == bytes.size(), "a cell does not consume exactly its own bytes");
  same(a, b, "a loaded cell differs from the saved one");
}
// values one after another, at any alignment
VERIF_ENTRY(c09_values) {
  double d0 = verif_real("d0", -1e6, 1e6), d1 = verif_real("d1", -1e6, 1e6);
  int i0 = (int)verif_int("i0", -1000000, 1000000);
  long l0 = verif_int("l0", -1000000000000, 1000000000000);
  bool b0 = verif_bool("b0");
  char c0 = (char)verif_int("c0", -128, 127);
  unsigned long z0 = (unsigned long)verif_int("z0", 0, 1000000000);
  Serializer inner; inner << i0 << b0;
  Serializer s = verif_choose("reserve", 2) ? Serializer{100} : Serializer{};
  int order = verif_choose("order", 3);
  if (order == 0) { s << b0 << d0 << i0 << c0 << d1 << z0 << l0; }
  else if (order == 1) { s << i0 << d1 << d0; s.append(inner.result()); s << l0 << c0; }
  else { s << c0 << inner.result() << z0; s.reserve(4); s << d0 << d1; }
  std::vector<char> data = s.result();
  std::vector<char> more(verif_choose("offset", 2) ? 3 : 0, 'q');
  size_t off = more.size();
  more.insert(more.end(), data.begin(), data.end());
  Deserializer r{more, off};
  verif_check(r.pos() == off, "reading starts at the wrong place");
  double rd0 = d0, rd1 = d1; int ri0 = i0; long rl0 = l0; bool rb0 = b0; char rc0 = c0; unsigned long rz0 = z0;
  size_t n = 0;
  if (order == 0) { r >> rb0; n += sizeof(bool); verif_check(r.pos() == off + n, "position after a bool"); r >> rd0; n += 8; verif_check(r.pos() == off + n, "position after a double"); r >> ri0 >> rc0 >> rd1 >> rz0 >> rl0; }
  else if (order == 1) { r >> ri0 >> rd1 >> rd0; verif_check(ri0 == i0, "value read back"); r >> ri0 >> rb0 >> rl0 >> rc0; }
  else { r >> rc0; size_t p = r.pos(); r.inc_pose(sizeof(int) + sizeof(bool)); verif_check(r.pos() == p + sizeof(int) + sizeof(bool), "skipping"); r >> rz0 >> rd0 >> rd1; Deserializer r2{more, p}; r2 >> ri0 >> rb0; }
  verif_check(r.pos() == more.size(), "values do not consume exactly their own bytes");
  verif_check(vand(vand(rd0 == d0, rd1 == d1), vand(ri0 == i0, rl0 == l0), vand(rb0 == b0, rc0 == c0, rz0 == z0)), "values are not read back in order");
  Serializer cont{data}; cont << d1;
  auto longer = cont.result();
  Deserializer rc{longer, data.size()}; double x; rc >> x;
  verif_check(vand(x == d1, rc.pos() == longer.size(), longer.size() == data.size() + 8), "appending to saved data");
}
struct TestCell : GridCell { // order-sensitive, with hidden state
  int n = 0; double w = 0.5;
  TestCell() : GridCell{Occupancy{0.375, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<TestCell>(*this); }
  void operator+=(const Aoo &o) override { _occupancy.prob_occ = 0.5 * _occupancy.prob_occ + 0.5 * o.occupancy.prob_occ; ++n; w += n * o.quality; on_update(); }
  std::vector<char> serialize() const override { Serializer s(GridCell::serialize()); s << n << w; return s.result(); }
  size_t deserialize(const std::vector<char> &d, size_t p = 0) override { Deserializer r(d, GridCell::deserialize(d, p)); r >> n >> w; return r.pos(); }
};
static void same_cell(const GridCell &a, const GridCell &b, const char *what) {
  auto &x = static_cast<const TestCell &>(a), &y = static_cast<const TestCell &>(b);
  verif_check(vand(x.is_unknown() == y.is_unknown(), x.n == y.n, x.w == y.w, x.occupancy().prob_occ == y.occupancy().prob_occ), what);
}
static void same_maps(const GridMap &a, const GridMap &b, int m, const char *what) {
  verif_check(vand(a.width() == b.width(), a.height() == b.height(), a.scale() == b.scale()), "a loaded map has another extent or scale");
  verif_check(a.origin() == b.origin(), "a loaded map has another origin");
  for (int y = -m; y <= m; ++y) for (int x = -m; x <= m; ++x) same_cell(a[{x, y}], b[{x, y}], what);
}
VERIF_ENTRY(c09_map) {
  int w = 1 + verif_choose("w", 3), h = 1 + verif_choose("h", 2), M = 4;
  double scale = verif_real("scale", 0.001, 1000);
  auto &a = *new UnboundedPlainGridMap(std::make_shared<TestCell>(), GridMapParams{w, h, scale});
  auto &b = *new UnboundedPlainGridMap(std::make_shared<TestCell>(), verif_choose("other", 2) ? GridMapParams{4, 1, 1} : GridMapParams{0, 0, 0});
  for (int i = 0; i < 2; ++i) {
    Coord c{(int)verif_pick(verif_int(i ? "x1" : "x0", i ? -1 : -3, i ? 2 : 3)), (int)verif_pick(verif_int(i ? "y1" : "y0", i ? 0 : -2, i ? T : 2))};
    a.update(c, aoo(prob(PN[i]), 1, 0.5));
  }
  b.load_state(a.save_state());
  same_maps(a, b, M, "a loaded map holds another value");
  verif_check(a.save_state() == b.save_state(), "a loaded map is saved differently");
  Coord c{verif_choose("cx", 2) * 5 - 3, verif_choose("cy", 2)};
  a.update(c, aoo(0.75, 1, 1)); b.update(c, aoo(0.75, 1, 1));
  same_maps(a, b, M, "a loaded map reacts differently to an update");
}
// every level of the multi-resolution map, whatever scale is selected when saving
template <typename M, typename F> static void levels(F &&make) {
  int w = verif_choose("w", 2) ? 4 : 3, h = verif_choose("h", 2) ? 2 : 5;
  M &a = *make(GridMapParams{w, h, 0.5}), &b = *make(verif_choose("other", 2) ? GridMapParams{8, 1, 1} : GridMapParams{0, 0, 0});
  b.set_scale_id(b.coarsest_scale_id()); // whatever scale is selected when loading
  for (int i = 0; i < 2; ++i) {
    Coord c{(int)verif_pick(verif_int(i ? "x1" : "x0", i ? 0 : -2, i ? 0 : 3)), i ? 0 : verif_choose("y0", 2) * 5 - 1};
    a.update(c, aoo(prob(PN[i]), 1, 0.5));
  }
  unsigned top = a.coarsest_scale_id(), sel = verif_choose("sel", 3);
  a.set_scale_id(sel == 0 ? 0 : sel == 1 ? 1 : top);
  b.load_state(a.save_state());
  verif_check(b.scale_id() == b.finest_scale_id(), "a loaded map does not start at the finest scale");
  verif_check(a.scales_nm() == b.scales_nm(), "a loaded map has another number of levels");
  for (unsigned s = 0; s <= top; ++s) { a.set_scale_id(s); b.set_scale_id(s); same_maps(a, b, s ? 2 : 3, "a loaded level holds another value"); }
  a.set_scale_id(0); b.set_scale_id(0);
  Coord c{verif_choose("cx", 2) * 4 - 2, 0};
  a.update(c, aoo(0.75, 1, 1)); b.update(c, aoo(0.75, 1, 1));
  for (unsigned s = 0; s < a.scales_nm(); ++s) { a.set_scale_id(s); b.set_scale_id(s); same_maps(a, b, s ? 2 : 3, "a loaded level reacts differently to an update"); }
}
VERIF_ENTRY(c09_levels) {
  using M = RescalableCachingGridMap<UnboundedPlainGridMap>;
  levels<M>([](const GridMapParams &p) { return new M(std::make_shared<TestCell>(), p); });
}
VERIF_ENTRY(c09_m3rsm) {
  using M = M3RSMRescalableGridMap<UnboundedPlainGridMap>;
  levels<M>([](const GridMapParams &p) { return new M(std::make_shared<OccupancyOIE>(), std::make_shared<TestCell>(), p); });
}
VERIF_ENTRY(c09_map_large) { // extents beyond what a byte holds, far origins
  int wide = verif_choose("wide", 2), w = wide ? 300 : 1, h = wide ? 1 : 300;
  auto &a = *new UnboundedPlainGridMap(std::make_shared<TestCell>(), GridMapParams{w, h, 0.05});
  auto &b = *new UnboundedPlainGridMap(std::make_shared<TestCell>(), GridMapParams{2, 2, 1});
  static const int At[] = {-650, 149, 0, 700};
  std::vector<Coord> cs;
  for (int i = 0; i < 4; ++i) { Coord c{wide ? At[i] : i % 2, wide ? i % 2 : At[i]}; cs.push_back(c); a.update(c, aoo(prob(PN[i]), 1, 0.5)); }
  b.load_state(a.save_state());
  same_maps(a, b, 1, "a loaded map holds another value");
  for (auto &c : cs) same_cell(a[c], b[c], "a loaded map holds another value");
  Coord n{wide ? 149 : 0, wide ? 0 : 149};
  a.update(n, aoo(0.75, 1, 1)); b.update(n, aoo(0.75, 1, 1));
  for (auto &c : cs) same_cell(a[c], b[c], "a loaded map reacts differently to an update");
  same_cell(a[n], b[n], "a loaded map reacts differently to an update");
}
// counters beyond what a byte or a short holds
template <typename C> static void counter() {
  auto &a = *new C(), &b = *new C();
  int n = verif_choose("many", 2) ? 70000 : 300;
  for (int i = 0; i < n; ++i) a += aoo(i % 3 ? 0.75 : 0.25, 1, 1);
  auto bytes = a.serialize();
  verif_check(b.deserialize(bytes) == bytes.size(), "a cell does not consume exactly its own bytes");
  same(a, b, "a loaded cell differs from the saved one");
  Aoo o = aoo(verif_choose("high", 2) ? 1 : prob("p0"), 1, 1);
  a += o; b += o;
  same(a, b, "a loaded cell reacts differently to an observation");
}
VERIF_ENTRY(c09_counter_large) {
  switch (verif_choose("model", 3)) {
    case 0: counter<MeanProbabilityCell>(); break;
    case 1: counter<AffineQualityMergeCell>(); break;
    default: counter<GmappingBaseCell>();
  }
}
