// The same for generated meshes: blocks and rows whose nodes are moved.
//@ sources: mesh geom err
//@ bounds: generated blocks of 1..2 x 1..2 x 1..2 cells moved to a block of arbitrary corner (multiples of 1/4 in [-8,8]) and extents (1/4..8), and generated rows of 3 cells moved to arbitrary increasing coordinates in three geometries, twice in a row, through either overload of node_set_coordinates
//@ quick:
//@ thorough:
#include "sv.h"
#include "simple.hh"
extern "C" void sv_main() {
  if (sv_concretize(sv_int("dim", 0, 1))) {
    Box3 b{0, 0, 0, 1, 1, 1, sv_concretize(sv_int("nx", 1, 2)), sv_concretize(sv_int("ny", 1, 2)), sv_concretize(sv_int("nz", 1, 2))};
    auto m = make3(b);
    int N[3] = {b.nx, b.ny, b.nz};
    std::vector<std::array<double, 3>> u;
    for (int n = 0; n < m->num_nodes(); n++) { std::array<double, 3> p; m->node_get_coordinates(n, &p); u.push_back(p); }
    for (int r = 0; r < 2; r++) {
      double o[3], e[3];
      for (int k = 0; k < 3; k++) { o[k] = sv_grid("corner", -32, 32, 2); e[k] = sv_grid("extent", 1, 32, 2); }
      std::vector<Point> q;
      for (size_t n = 0; n < u.size(); n++) {
        Point p(3);
        for (int k = 0; k < 3; k++) p[k] = o[k] + e[k] * u[n][k];
        q.push_back(p);
        if (n % 2) m->node_set_coordinates(n, p);
        else { double c[3] = {p[0], p[1], p[2]}; m->node_set_coordinates(n, c); }
      }
      double V = e[0] * e[1] * e[2] / (N[0] * N[1] * N[2]);
      for (int c = 0; c < m->num_cells(); c++) sv_check_close(m->cell_volume(c, true), V, 1e-9, "recomputed-block-cell-volume");
      m->update_geometric_quantities();
      for (size_t n = 0; n < u.size(); n++) { Point g(3); m->node_get_coordinates(n, &g); for (int k = 0; k < 3; k++) sv_check_close(g[k], q[n][k], 1e-12, "moved-node"); }
      for (int c = 0; c < m->num_cells(); c++) {
        sv_check_close(m->cell_volume(c), V, 1e-9, "block-cell-volume");
        IL ns; m->cell_get_nodes(c, &ns);
        std::vector<Point> cc; m->cell_get_coordinates(c, &cc);
        sv_check(cc.size() == 8 && ns.size() == 8, "cell-coordinate-count");
        Point g = m->cell_centroid(c);
        for (int k = 0; k < 3; k++) { double s = 0; for (int n : ns) s += q[n][k]; sv_check_close(g[k], s / 8, 1e-9, "block-cell-centroid"); }
        for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) sv_check_close(cc[i][k], q[ns[i]][k], 1e-12, "cell-coordinates");
      }
      for (int f = 0; f < m->num_faces(); f++) {
        IL ns; m->face_get_nodes(f, &ns);
        std::vector<Point> fcs; m->face_get_coordinates(f, &fcs);
        sv_check(ns.size() == 4 && fcs.size() == 4, "face-coordinate-count");
        Point g = m->face_centroid(f);
        double nn[3] = {0, 0, 0};
        for (int k = 0; k < 3; k++) {
          double s = 0; for (int n : ns) s += q[n][k]; sv_check_close(g[k], s / 4, 1e-9, "block-face-centroid");
          int a = (k + 1) % 3, c = (k + 2) % 3;
          nn[k] = (q[ns[1]][a] - q[ns[0]][a]) * (q[ns[3]][c] - q[ns[0]][c]) - (q[ns[1]][c] - q[ns[0]][c]) * (q[ns[3]][a] - q[ns[0]][a]);
          for (int i = 0; i < 4; i++) sv_check_close(fcs[i][k], q[ns[i]][k], 1e-12, "face-coordinates");
        }
        double A = m->face_area(f);
        sv_check(A > 0, "block-face-area");
        sv_check_close(A * A, nn[0] * nn[0] + nn[1] * nn[1] + nn[2] * nn[2], 1e-7, "block-face-area");
        Point w = m->face_normal(f);
        for (int k = 0; k < 3; k++) sv_check_close(w[k], nn[k], 1e-9, "block-face-normal");
      }
    }
    sv_cover("block");
    return;
  }
  int gm = sv_concretize(sv_int("geometry", 0, 2));
  auto m = make1({1, 2, 4, 5}, gm == 0 ? JaliGeometry::Geom_type::CARTESIAN : gm == 1 ? JaliGeometry::Geom_type::CYLINDRICAL : JaliGeometry::Geom_type::SPHERICAL, true, true, true, true);
  for (int r = 0; r < 2; r++) {
    double x[4];
    bool up = true;
    for (int i = 0; i < 4; i++) { x[i] = sv_grid("x", 1, 32, 2); if (i) up = up & (x[i - 1] < x[i]); }
    sv_assume(up);
    for (int i = 0; i < 4; i++) { if (i % 2) m->node_set_coordinates(i, &x[i]); else { Point p(1); p[0] = x[i]; m->node_set_coordinates(i, p); } }
    m->update_geometric_quantities();
    for (int c = 0; c < 3; c++) {
      double a = x[c], b = x[c + 1], h = (a + b) / 2;
      auto shell = [&](double u, double v) { return gm == 0 ? v - u : gm == 1 ? M_PI * (v * v - u * u) : 4.0 / 3 * M_PI * (v * v * v - u * u * u); };
      sv_check_close(m->cell_volume(c), shell(a, b), 1e-6, "row-cell-volume");
      if (gm == 0) sv_check_close(m->cell_centroid(c)[0], h, 1e-9, "row-cell-centroid");
      double s = 0, w = 0, k = 0;
      IL cs, cw, ck; m->cell_get_sides(c, &cs); m->cell_get_wedges(c, &cw); m->cell_get_corners(c, &ck);
      for (int i : cs) { s += m->side_volume(i); Point n = m->side_facet_normal(i); double at = x[m->side_get_node(i, 0)]; bool left = m->side_get_node(i, 0) == c; double A = gm == 0 ? 1 : gm == 1 ? 2 * M_PI * at : 4 * M_PI * at * at; sv_check_close(n[0], left ? -A : A, 1e-6, "row-side-normal"); }
      for (int i : cw) w += m->wedge_volume(i);
      for (int i : ck) k += m->corner_volume(i);
      sv_check_close(s, shell(a, b), 1e-5, "row-sides"); sv_check_close(w, shell(a, b), 1e-5, "row-wedges"); sv_check_close(k, shell(a, b), 1e-5, "row-corners");
    }
    for (int f = 0; f < 4; f++) { sv_check_close(m->face_area(f), gm == 0 ? 1 : gm == 1 ? 2 * M_PI * x[f] : 4 * M_PI * x[f] * x[f], 1e-6, "row-face-area"); sv_check_close(m->face_centroid(f)[0], x[f], 1e-9, "row-face-centroid"); }
  }
  sv_cover("row");
}
