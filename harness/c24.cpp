// C24: generated and exported maps and scans describe the same environment.
#include "verif.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/states/world.h"
#include "core/states/sensor_data.h"
#include "stream_stubs.h"
#include "utils/map_dumpers.h"
#include "utils/data_generation/map_primitives.h"
#include "utils/data_generation/grid_map_patcher.h"
#include "utils/data_generation/laser_scan_generator.h"
using Coord = RegularSquaresGrid::Coord;
#ifdef VERIF_THOROUGH
static const int T = 1;
#else
static const int T = 0;
#endif
struct LastCell : GridCell {
  LastCell(double v) : GridCell{Occupancy{v, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<LastCell>(*this); }
  void operator+=(const AreaOccupancyObservation &aoo) override { _occupancy = aoo.occupancy; on_update(); }
};
static std::shared_ptr<GridCell> proto(double v) { return std::make_shared<LastCell>(v); }
// ---------------------------------------------------------------- images
static int digits(const VFile &f, int &i) {
  int v = 0, any = 0;
  while (i < f.n && f.data[i] >= '0' && f.data[i] <= '9') { v = 10 * v + (f.data[i++] - '0'); any = 1; }
  return any ? v : -1;
}
static int space(const VFile &f, int &i) { int n = 0; while (i < f.n && (f.data[i] == ' ' || f.data[i] == '\n' || f.data[i] == '\t')) ++i, ++n; return n; }
static const char *OV[] = {"o0", "o1", "o2"};
static void check_image(const VFile &f, const GridMap &m) {
  verif_check(f.closed, "the file stays open");
  int i = 2;
  verif_check(f.n > 2 && f.data[0] == 'P' && f.data[1] == '5', "no PGM magic number");
  verif_check(space(f, i) > 0, "no space after the magic number");
  verif_check(digits(f, i) == m.width(), "the width of the image"); verif_check(space(f, i) > 0, "no space after the width");
  verif_check(digits(f, i) == m.height(), "the height of the image"); verif_check(space(f, i) > 0, "no space after the height");
  verif_check(digits(f, i) == 255, "the maximum of the image");
  verif_check(f.data[i] == '\n' || f.data[i] == ' ', "no space after the maximum"); ++i;
  verif_check(f.n - i == m.width() * m.height(), "one byte per cell");
  auto o = m.origin();
  for (int r = 0; r < m.height(); ++r)
    for (int c = 0; c < m.width(); ++c) {
      double occ = m.occupancy(Coord{c - o.x, m.height() - 1 - r - o.y}), b = (unsigned char)f.data[i++];
      double e = occ < 0 ? 255 : occ > 1 ? 0 : 255 * (1 - occ);
      if (occ == -1) e = 127.5;
      verif_check(vnear(b, e, 1 + 1e-9), "a pixel does not show the occupancy of its cell");
    }
  verif_observe_i("last", f.data[f.n - 1]);
}
static const double CONC[] = {0.25, 0.75, -1, 0.125, 1, 0, 0.5, 0.0625, 0.875, 0.375, 0.9375, 0.1875, 0.8125, 0.625, 0.3125, 0.6875};
static GridMap &dump_map(int kind, int w, int h) {
  static double v[3];
  for (int i = 0; i < 3; ++i) v[i] = verif_grid(OV[i], -2, 2, 1.0 / 4096);
  GridMap *m;
  GridMapParams p{w, h, 0.5};
  if (kind == 0) m = new PlainGridMap(proto(v[0]), p);
  else if (kind == 1) m = new UnboundedPlainGridMap(proto(v[0]), p);
  else m = new UnboundedLazyTiledGridMap(proto(v[0]), p);
  auto o = m->origin();
  int k = 0;
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x, ++k)
      if (k) m->reset(Coord{x - o.x, y - o.y}, LastCell{k == w * h - 1 ? v[1] : k == (w * h) / 2 ? v[2] : CONC[k % 16]});
  return *m;
}
VERIF_ENTRY(c24_dump) {
  int w = 1 + verif_choose("w", T ? 4 : 3), h = 1 + verif_choose("h", T ? 4 : 3);
  auto &m = dump_map(verif_choose("kind", 2), w, h);
  auto &d = *new GridMapToPgmDumber("map");
  d.on_map_update(m);
  verif_check(vfiles_nm == 1 && vfiles[0]->name == "map_0.pgm", "the name of the image");
  check_image(*vfiles[0], m);
}
VERIF_ENTRY(c24_dump_tiled) {
  auto &m = dump_map(2, 3, 2);
  auto &d = *new GridMapToPgmDumber("map");
  d.on_map_update(m); check_image(*vfiles[0], m);
}
// a sequence of images of a map that changes and grows
VERIF_ENTRY(c24_dump_grown) {
  auto &m = dump_map(1, 2, 2);
  auto &d = *new GridMapToPgmDumber("d/m");
  d.on_map_update(m); check_image(*vfiles[0], m);
  int x = verif_choose("x", 5) - 3, y = verif_choose("y", 5) - 3; // 2x2 cells: -1..0
  m.reset(Coord{x, y}, LastCell{verif_grid("nv", 0, 1, 1.0 / 4096)});
  d.on_map_update(m);
  verif_check(vfiles_nm == 2 && vfiles[0]->name == "d/m_0.pgm" && vfiles[1]->name == "d/m_1.pgm", "the names of the images");
  check_image(*vfiles[1], m);
}
// ---------------------------------------------------------------- rasters
struct Upd { Coord c; AreaOccupancyObservation o; };
struct RecMap { std::vector<Upd> u; void update(const Coord &c, const AreaOccupancyObservation &o) { u.push_back({c, o}); } };
// row r, column c of the raster is seen in exactly w x h cells
static void check_patch(const std::vector<Upd> &u, const std::vector<std::string> &rows, int ox, int oy, int wz, int hz) {
  size_t n = 0;
  for (auto &r : rows) n += r.size() * wz * hz;
  verif_check(u.size() == n, "the number of cells set");
  for (int r = 0; r < (int)rows.size(); ++r)
    for (int i = 0; i < hz; ++i)
      for (int c = 0; c < (int)rows[r].size(); ++c)
        for (int j = 0; j < wz; ++j) {
          Coord e{c * wz + j, -(r * hz + i)};
          int seen = 0, right = 1; double v = rows[r][c] == ' ' ? 0.0 : 1.0;
          for (auto &x : u) {
            int hit = vand(x.c.x - ox == e.x, x.c.y - oy == e.y);
            seen += hit; right &= vimp(hit, vand(x.o.occupancy.prob_occ == v, x.o.quality == 1, x.o.occupancy.estimation_quality == 1));
          }
          verif_check(seen == 1, "a cell of the raster is not set exactly once"); verif_check(right, "a cell of the raster gets another state");
        }
}
static const char *CN[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8"};
static char any_char(int k) { int c = (int)verif_int(CN[k], -128, 127); verif_assume(c != '\n'); return (char)c; }
static void patch(int auto_align) {
  int n = verif_choose("rows", T ? 4 : 3), wz = 1 + verif_choose("wz", T ? 3 : 2), hz = 1 + verif_choose("hz", T ? 3 : 2), k = 0;
  std::vector<std::string> rows; std::string text; size_t W = 0;
  static const char *LN[] = {"len0", "len1", "len2"};
  for (int r = 0; r < n; ++r) {
    int len = 1 + verif_choose(LN[r], 3);
    std::string s;
    for (int c = 0; c < len; ++c) s += k < 2 ? any_char(k) : (k % 3 ? '+' : ' '), ++k;
    rows.push_back(s); text += s; W = std::max(W, s.size());
    if (r + 1 < n || verif_choose("endl", 2)) text += '\n';
  }
  if (!text.empty() && text.back() == '\n' && verif_choose("more", 2)) text += "\n++ +\n"; // behind an empty line
  std::verif_stringstream ss{text};
  RecMap m; GridMapPatcher p;
  if (auto_align) {
    if (wz == 1 && hz == 1) p.apply_text_raster(m, ss); else p.apply_text_raster(m, ss, wz, hz);
    check_patch(m.u, rows, -((int)W * wz / 2), n * hz / 2, wz, hz);
    return;
  }
  Coord off{(int)verif_int("ox", -1000, 1000), (int)verif_int("oy", -1000, 1000)};
  if (wz == 1 && hz == 1) p.apply_text_raster(m, ss, off); else p.apply_text_raster(m, ss, off, wz, hz);
  check_patch(m.u, rows, off.x, off.y, wz, hz);
  if (n && verif_choose("again", 2)) { // the patcher keeps nothing
    std::verif_stringstream t{std::string("+ \n+")};
    m.u.clear(); p.apply_text_raster(m, t, 2, 1);
    check_patch(m.u, {"+ ", "+"}, -2, 1, 2, 1);
  }
}
VERIF_ENTRY(c24_patch) { patch(0); }
VERIF_ENTRY(c24_patch_auto) { patch(1); }
VERIF_ENTRY(c24_primitive) {
  using BP = CecumTextRasterMapPrimitive::BoundPosition;
  int w = 1 + verif_choose("w", T ? 6 : 4), h = 1 + verif_choose("h", T ? 6 : 4), b = verif_choose("bound", 4);
  auto &p = *new CecumTextRasterMapPrimitive(w, h, b == 0 ? BP::Left : b == 1 ? BP::Right : b == 2 ? BP::Top : BP::Bot);
  verif_check(p.width() == w && p.height() == h, "the size of the primitive");
  auto &m = *new UnboundedPlainGridMap(proto(0.5), GridMapParams{1, 1, 1});
  GridMapPatcher gp;
  Coord off{verif_choose("ox", 2) * 3 - 1, verif_choose("oy", 2) * 2};
  for (int i = 0; i < 2; ++i) gp.apply_text_raster(m, p.to_stream(), off); // the raster can be taken again
  auto occ = [&](int x, int y) { return m.occupancy(Coord{x + off.x, y + off.y}); };
  for (int x = -1; x <= w; ++x)
    for (int y = 1; y >= -h; --y) {
      double e = 0.5;
      if (0 <= x && x < w && -h < y && y <= 0) {
        int wall = b < 2 ? y == 0 || y == -h + 1 || x == (b == 0 ? 0 : w - 1) : x == 0 || x == w - 1 || y == (b == 2 ? 0 : -h + 1);
        e = wall ? 1 : 0;
      }
      verif_check(occ(x, y) == e, "the raster of the dead end");
    }
  // any point inside of a free rectangle is in a free cell, and all free cells are covered
  double px = verif_grid("px", -1, w + 1, 1.0 / 64), py = verif_grid("py", -h - 1, 2, 1.0 / 64);
  auto fs = p.free_space();
  verif_check(fs.size() == 1, "free rectangles");
  int in = vand(fs[0].left() < px, px < fs[0].right(), fs[0].bot() < py, py < fs[0].top());
  if (in) verif_check(occ((int)verif_pick((int)std::floor(px)), (int)verif_pick((int)std::floor(py))) == 0, "a free rectangle covers an occupied cell");
}
// ---------------------------------------------------------------- scans
struct Dir { double off, inc, half; };
static void scan_case(int li, int ti, int both) {
  const double S = 0.5;
  auto &m = *new UnboundedPlainGridMap(proto(0.25), GridMapParams{9, 9, S});
  static const double MX[] = {1.75, 1.2, 3};
  static const double TH[] = {0, 0.3, -2.0, M_PI / 2, 1.1, 2.2, -0.9, M_PI, -M_PI / 2, 3.5};
  static const LaserScannerParams LP[] = {{0, M_PI / 2, M_PI}, {0, 0.7, 1.0}, {0, 1.0, 0}, {0, 2.5, M_PI}};
  double mx = MX[T ? verif_choose("range", 3) : (li + ti) / 2 % 2], th = TH[ti], thr = (T ? verif_choose("thr", 2) : li != 1) ? 1.0 : 0.5;
  double rs = verif_grid("r", 0.0625, S - 0.0625, 1.0 / 256), rf = both ? verif_grid("r2", 0.0625, S - 0.0625, 1.0 / 256) : T ? 0.1875 + 0.0625 * verif_choose("fixed", 3) : 0.1875;
  int along_y = both ? 0 : T ? verif_choose("along", 2) : (li + ti) % 2;
  double rx = along_y ? rf : rs, ry = along_y ? rs : rf;
  const int N = 3;
  static const Coord OC[][3] = {{{2, 0}, {1, 0}, {0, 2}}, {{-1, 0}, {0, -2}, {-2, 1}}, {{1, 1}, {3, 0}, {0, -1}}, {{-1, -1}, {-1, 1}, {2, 1}}, {{2, 2}, {-2, -2}, {-2, 0}}};
  auto &oc = OC[verif_choose("world", T || both ? 5 : 3)];
  static const char *VN[] = {"v0", "v1", "v2"};
  double v[N];
  for (int i = 0; i < N; ++i) { v[i] = verif_grid(VN[i], 0, 1, 1.0 / 8); m.reset(oc[i], LastCell{v[i]}); }
  LaserScanGenerator g{LaserScannerParams{mx, LP[li].h_angle_inc, LP[li].h_hsector}};
  // what each ray meets
  struct Hit { double a, dx, dy, t[N], in[N]; int is[N]; };
  std::vector<Hit> rays;
  for (int k = 0;; ++k) {
    Hit r; r.a = -LP[li].h_hsector + k * LP[li].h_angle_inc;
    if (r.a > LP[li].h_hsector + 1e-12 || k * LP[li].h_angle_inc >= 2 * M_PI - 1e-12) break;
    r.dx = mx * std::cos(r.a + th); r.dy = mx * std::sin(r.a + th);
    for (int i = 0; i < N; ++i) {
      double l = oc[i].x * S, b = oc[i].y * S, lo = -1e9, hi = 1e9;
      int miss = 0;
      if (std::abs(r.dx) > 1e-9) { double p = (l - rx) / r.dx, q = (l + S - rx) / r.dx; lo = std::max(lo, r.dx > 0 ? p : q); hi = std::min(hi, r.dx > 0 ? q : p); }
      else miss |= vor(rx <= l, l + S <= rx);
      if (std::abs(r.dy) > 1e-9) { double p = (b - ry) / r.dy, q = (b + S - ry) / r.dy; lo = std::max(lo, r.dy > 0 ? p : q); hi = std::min(hi, r.dy > 0 ? q : p); }
      else miss |= vor(ry <= b, b + S <= ry);
      verif_assume(vor(std::abs(hi - lo) > 1e-4, miss)); // the beam does not pass through a corner
      verif_assume(vor(std::abs(lo - 1) > 1e-4, miss));  // nor end at an edge
      r.t[i] = 0.5 * (lo + hi); r.in[i] = lo;
      r.is[i] = vand(miss ^ 1, lo < hi, vand(lo > 0, lo < 1), v[i] >= thr);
    }
    rays.push_back(r);
  }
  auto scan = g.laser_scan_2D(m, RobotPose{rx, ry, th}, thr);
  verif_check(scan.trig_provider != nullptr, "no trigonometry provider");
  size_t k = 0;
  for (auto &r : rays) {
    int any = 0; double first = 2, mid = 0;
    for (int i = 0; i < N; ++i) {
      int nearer = vand(r.is[i], r.in[i] < first);
      any |= r.is[i]; mid = nearer ? r.t[i] : mid; first = nearer ? r.in[i] : first;
    }
    int here = k < scan.points().size() && vnear(scan.points()[k].angle(), r.a, 1e-9);
    verif_check(viff(here, any), "a ray reports a point if and only if there is an obstacle in range");
    if (!here) continue;
    auto &sp = scan.points()[k++];
    verif_check(sp.is_occupied(), "the point of an obstacle is not occupied");
    verif_check(sp.range() >= 0, "a negative range");
    verif_check(vnear(sp.range(), mid * mx, 1e-6), "the range of the nearest obstacle");
  }
  verif_check(k == scan.points().size(), "a point that belongs to no ray");
}
VERIF_ENTRY(c24_scan) { static const int L[] = {0, 1, 3}; scan_case(L[verif_choose("scanner", T ? 3 : 2)], verif_choose("theta", T ? 5 : 3), 0); }
VERIF_ENTRY(c24_beam) { scan_case(2, verif_choose("theta", 10), 1); }
VERIF_ENTRY(c24_dump_large) {
  int w = verif_choose("wide", 2) ? 300 : 1; auto &m = dump_map(verif_choose("kind", 2), w, w == 1 ? 270 : 2);
  auto &d = *new GridMapToPgmDumber("map");
  d.on_map_update(m); check_image(*vfiles[0], m);
}
