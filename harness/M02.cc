// A generated mesh fills exactly the requested domain.
//@ sources: mesh geom err
//@ bounds: blocks with any corners on a grid of multiples of 1/4 (origin within [-16,16], extents up to 8) and rows with any increasing coordinates (multiples of 1/4, within [-16,16] Cartesian, [0,16] otherwise) in the three geometries; sizes within the limits below
//@ bounds_quick: blocks of up to 12 cells with at most 3 in a direction, rows up to 4 cells
//@ bounds_thorough: blocks of up to 27 cells with at most 4 in a direction, rows up to 6 cells
//@ quick: -DN1=4 -DN3=3 -DNC=12
//@ thorough: -DN1=6 -DN3=4 -DNC=27
#include "sv.h"
#include "simple.hh"
static void block() {
  int nx = sv_int("nx", 1, N3), ny = sv_int("ny", 1, N3), nz = sv_int("nz", 1, N3);
  sv_assume(nx * ny * nz <= NC);
  int n[3] = {sv_concretize(nx), sv_concretize(ny), sv_concretize(nz)};
  double o[3], L[3], h[3];
  for (int i = 0; i < 3; i++) { o[i] = sv_grid("o", -64, 64, 2); L[i] = sv_grid("L", 1, 32, 2); h[i] = L[i] / n[i]; }
  auto mp = make3({o[0], o[1], o[2], o[0] + L[0], o[1] + L[1], o[2] + L[2], n[0], n[1], n[2]});
  Jali::Mesh& m = *mp;
  sv_check((int)m.num_nodes() == (n[0] + 1) * (n[1] + 1) * (n[2] + 1) && (int)m.num_cells() == n[0] * n[1] * n[2], "counts");
  // every grid point is a node
  int nn = m.num_nodes();
  std::vector<bool> used(nn, false);
  for (int g = 0; g < nn; g++) {
    int k[3] = {g % (n[0] + 1), g / (n[0] + 1) % (n[1] + 1), g / (n[0] + 1) / (n[1] + 1)};
    bool hit = false;
    for (int q = 0; q < nn && !hit; q++) {
      int v = (g + q) % nn;
      if (used[v]) continue;
      Point p; m.node_get_coordinates(v, &p);
      bool c = true;
      for (int i = 0; i < 3; i++) c = c & sv_close(p[i], o[i] + k[i] * h[i], 1e-9);
      if (c) {
        hit = used[v] = true;
        std::array<double, 3> a; m.node_get_coordinates(v, &a);
        sv_check(p.dim() == 3, "point-dimension");
        for (int i = 0; i < 3; i++) sv_check(a[i] == p[i], "coordinate-overloads-agree");
      }
    }
    sv_check(hit, "grid-point-is-a-node");
  }
  double total = 0;
  for (int c = 0; c < (int)m.num_cells(); c++) {
    std::vector<Point> cc; m.cell_get_coordinates(c, &cc);
    IL cn = cnodes(m, c);
    sv_check(cc.size() == cn.size(), "cell-coordinate-count");
    double mid[3] = {0, 0, 0};
    for (size_t i = 0; i < cn.size(); i++) {
      Point p; m.node_get_coordinates(cn[i], &p);
      for (int d = 0; d < 3; d++) { sv_check(cc[i][d] == p[d], "cell-coordinates-are-node-coordinates"); mid[d] += p[d] / 8; }
    }
    double v = m.cell_volume(c);
    sv_check(v > 0, "positive-volume");
    sv_check_close(v, h[0] * h[1] * h[2], 1e-8, "cell-volume");
    Point ce = m.cell_centroid(c);
    for (int d = 0; d < 3; d++) sv_check_close(ce[d], mid[d], 1e-7, "cell-centroid");
    total += v;
  }
  sv_check_close(total, L[0] * L[1] * L[2], 1e-7, "volumes-add-up");
  for (int f = 0; f < (int)m.num_faces(); f++) {
    std::vector<Point> fc; m.face_get_coordinates(f, &fc);
    IL fn = fnodes(m, f);
    sv_check(fc.size() == fn.size(), "face-coordinate-count");
    for (size_t i = 0; i < fn.size(); i++) { Point p; m.node_get_coordinates(fn[i], &p); for (int d = 0; d < 3; d++) sv_check(fc[i][d] == p[d], "face-coordinates-are-node-coordinates"); }
  }
  sv_obs_d("vol", m.cell_volume(0));
  sv_cover("block");
}
static void line() {
  int g = sv_concretize(sv_int("geom", 0, 2));
  int n = sv_concretize(sv_int("n", 1, N1));
  std::vector<double> x;
  bool up = true;
  for (int i = 0; i <= n; i++) { x.push_back(sv_grid("x", g ? 0 : -64, 64, 2)); if (i) up = up & (x[i - 1] < x[i]); }
  sv_assume(up);
  auto mp = make1(x, g == 0 ? JaliGeometry::Geom_type::CARTESIAN : g == 1 ? JaliGeometry::Geom_type::CYLINDRICAL : JaliGeometry::Geom_type::SPHERICAL);
  Jali::Mesh& m = *mp;
  sv_check((int)m.num_nodes() == n + 1 && (int)m.num_cells() == n && (int)m.num_faces() == n + 1, "counts-1d");
  const double pi = M_PI;
  for (int i = 0; i <= n; i++) {
    Point p; m.node_get_coordinates(i, &p);
    double d; m.node_get_coordinates(i, &d);
    sv_check(p.dim() == 1 && p[0] == x[i] && d == x[i], "coordinates-1d");
    IL fn = fnodes(m, i);
    std::vector<Point> fc; m.face_get_coordinates(i, &fc);
    sv_check(fn.size() == 1 && fc.size() == 1 && fc[0][0] == x[fn[0]], "face-coordinates-1d");
    double r = x[fn[0]];
    sv_check_close(m.face_area(i), g == 0 ? 1.0 : g == 1 ? 2 * pi * r : 4 * pi * r * r, 1e-6, "face-area-1d");
    sv_check(m.face_centroid(i)[0] == r && m.face_centroid(i, true)[0] == r, "face-centroid-1d");
  }
  double total = 0;
  for (int c = 0; c < n; c++) {
    IL cn = cnodes(m, c);
    std::vector<Point> cc; m.cell_get_coordinates(c, &cc);
    sv_check(cc.size() == 2 && cc[0][0] == x[cn[0]] && cc[1][0] == x[cn[1]], "cell-coordinates-1d");
    double a = x[cn[0]], b = x[cn[1]], v = m.cell_volume(c);
    sv_check(v > 0, "positive-volume-1d");
    sv_check_close(v, g == 0 ? b - a : g == 1 ? pi * (b * b - a * a) : 4.0 / 3 * pi * (b * b * b - a * a * a), 1e-5, "cell-volume-1d");
    double ce = m.cell_centroid(c)[0];
    sv_check((ce > a) & (ce < b), "centroid-inside-1d");
    total += v;
  }
  double a = x[0], b = x[n];
  sv_check_close(total, g == 0 ? b - a : g == 1 ? pi * (b * b - a * a) : 4.0 / 3 * pi * (b * b * b - a * a * a), 1e-4, "volumes-add-up-1d");
  sv_obs_d("total", total);
  sv_cover(g == 0 ? "cartesian" : g == 1 ? "cylindrical" : "spherical");
}
extern "C" void sv_main() {
  if (sv_concretize(sv_bool("three"))) block(); else line();
}
