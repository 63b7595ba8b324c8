// C04: rasterisation of a segment.
#include "verif.h"
#include "core/maps/grid_map.h"
using Coord = RegularSquaresGrid::Coord;
static int iabs(int v) { return v < 0 ? -v : v; }
static void check_chain(const std::vector<Coord> &cs, const Coord &b, const Coord &e) {
  verif_check(!cs.empty(), "no cells");
  verif_check(cs.front() == b, "the first cell does not contain the start");
  verif_check(cs.back() == e, "the last cell does not contain the end");
  int lx = std::min(b.x, e.x), hx = std::max(b.x, e.x), ly = std::min(b.y, e.y), hy = std::max(b.y, e.y);
  for (size_t i = 0; i < cs.size(); ++i) {
    verif_check(vand(lx <= cs[i].x, cs[i].x <= hx, ly <= cs[i].y, cs[i].y <= hy), "a cell outside of the bounding box");
    if (i) verif_check(vand(iabs(cs[i].x - cs[i - 1].x) <= 1, iabs(cs[i].y - cs[i - 1].y) <= 1), "a gap in the chain");
    for (size_t j = 0; j < i; ++j) verif_check((cs[i] == cs[j]) ^ 1, "a cell is visited twice");
  }
}
#ifdef VERIF_THOROUGH
static const int N = 4;
static const double Pos[][2] = {{0.5, 0.5}, {0, 0}, {0.125, 0.75}, {0.999, 0.001}, {0.3, 0}, {0, 0.6}, {0.0625, 0.0625}};
static const double Scales[] = {1, 0.1, 0.25, 0.7};
#else
static const int N = 2;
static const double Pos[][2] = {{0, 0}, {0.125, 0.75}};
static const double Scales[] = {1, 0.1};
#endif
// every cell is touched by the segment, and no crossed cell is skipped
static void check_crossed(const std::vector<Coord> &cs, double s, double bx, double by, double dx, double dy) {
  double lim = 0.5 * s * ((dx < 0 ? -dx : dx) + (dy < 0 ? -dy : dy)) + 1e-6;
  for (size_t i = 0; i < cs.size(); ++i) {
    double cr = ((cs[i].x + 0.5) * s - bx) * dy - ((cs[i].y + 0.5) * s - by) * dx;
    verif_check(vand(-lim <= cr, cr <= lim), "a visited cell is not crossed by the segment");
    if (!i || cs[i].x == cs[i - 1].x || cs[i].y == cs[i - 1].y) continue;
    double cc = (std::max(cs[i].x, cs[i - 1].x) * s - bx) * dy - (std::max(cs[i].y, cs[i - 1].y) * s - by) * dx;
    verif_check(vand(-1e-6 <= cc, cc <= 1e-6), "a crossed cell is skipped");
  }
}
static void run(double s, double bx, double by, double ex, double ey) {
  RegularSquaresGrid g{20, 20, s};
  auto b = g.world_to_cell(bx, by), e = g.world_to_cell(ex, ey);
  b = Coord(verif_pick(b.x), verif_pick(b.y)); e = Coord(verif_pick(e.x), verif_pick(e.y));
  auto cs = g.world_to_cells(Segment2D{{bx, by}, {ex, ey}});
  check_chain(cs, b, e);
  check_crossed(cs, s, bx, by, ex - bx, ey - by);
  verif_observe_i("n", cs.size());
}
// concrete start, arbitrary end
VERIF_ENTRY(c04_fan_out) {
  double s = Scales[verif_choose("scale", sizeof Scales / sizeof Scales[0])];
  auto &p = Pos[verif_choose("pos", sizeof Pos / sizeof Pos[0])];
  double bx = p[0] * s, by = p[1] * s;
  run(s, bx, by, verif_real("ex", -N * s, N * s), verif_real("ey", -N * s, N * s));
}
// arbitrary start, concrete end
VERIF_ENTRY(c04_fan_in) {
  auto &p = Pos[verif_choose("pos", sizeof Pos / sizeof Pos[0])];
  double q = 1.0 / 1024;
  run(1, verif_grid("bx", -N, N, q), verif_grid("by", -N, N, q), p[0], p[1]);
}
// arbitrary start, given direction
VERIF_ENTRY(c04_slide) {
  static const double D[][2] = {{2, 1}, {-1, 3}, {-2, -2}, {0, -3}, {3, -0.5}, {-3.5, 2.25}, {0.25, 0.75}};
  auto &d = D[verif_choose("dir", sizeof D / sizeof D[0])];
  double q = 1.0 / 256, bx = verif_grid("bx", -1, 1, q), by = verif_grid("by", -1, 1, q);
  run(1, bx, by, bx + d[0], by + d[1]);
}
// integer line
VERIF_ENTRY(c04_discrete) {
#ifdef VERIF_THOROUGH
  const int M = 24;
#else
  const int M = 12;
#endif
  Coord b{(int)verif_int("bx", -1000, 1000), (int)verif_int("by", -1000, 1000)};
  int dx = verif_pick(verif_int("dx", -M, M)), dy = verif_pick(verif_int("dy", -M, M));
  Coord e{b.x + dx, b.y + dy};
  std::vector<Coord> cs = DiscreteSegment2D{b, e};
  check_chain(cs, b, e);
  for (auto &c : cs) verif_check(2 * iabs((c.x - b.x) * dy - (c.y - b.y) * dx) <= std::max(iabs(dx), iabs(dy)), "a cell of the integer line is far from the line");
}
// long lines
VERIF_ENTRY(c04_long) {
  static const int D[][2] = {{300, 127}, {-299, 300}, {5, -290}, {-280, -1}, {0, 270}, {-260, 0}};
  auto &d = D[verif_choose("line", 6)];
  Coord b{(int)verif_int("bx", -1000000, 1000000), (int)verif_int("by", -1000000, 1000000)}, e{b.x + d[0], b.y + d[1]};
  std::vector<Coord> cs = DiscreteSegment2D{b, e};
  check_chain(cs, b, e);
}
// longer beams anywhere in the world, many through corners
VERIF_ENTRY(c04_beam) {
  static const double D[][2] = {{30, 10}, {-27, 9}, {12, -36}, {-40, -16}, {20, 20}, {25, -7.5}, {-1.5, 22.5}, {0, 33}, {-33, 0}};
  auto &d = D[verif_choose("dir", 9)]; static const double F[][2] = {{0.5, 0.5}, {0, 0}, {0.25, 0.75}};
  auto &f = F[verif_choose("start", 3)];
  int kx = (int)verif_int("kx", -1000, 1000), ky = (int)verif_int("ky", -1000, 1000);
  RegularSquaresGrid g{20, 20, 1};
  double bx = kx + f[0], by = ky + f[1];
  Coord b{kx, ky}, e{kx + (int)std::floor(f[0] + d[0]), ky + (int)std::floor(f[1] + d[1])};
  auto cs = g.world_to_cells(Segment2D{{bx, by}, {bx + d[0], by + d[1]}});
  verif_check(vand(cs.front() == b, cs.back() == e), "the cells do not lead from the start to the end");
  int ok = 1, n = (int)cs.size(), sx = d[0] < 0 ? -1 : 1, sy = d[1] < 0 ? -1 : 1;
  for (int i = 1; i < n; ++i) {
    int ux = sx * (cs[i].x - cs[i - 1].x), uy = sy * (cs[i].y - cs[i - 1].y);
    ok = vand(ok, vand(ux >= 0, uy >= 0, ux <= 1, uy <= 1), ux + uy > 0);
  }
  verif_check(ok, "not a chain of cells towards the end");
  check_crossed(cs, 1, bx, by, d[0], d[1]);
}
