// Face normals are consistently oriented and close every cell.
//@ sources: mesh geom err
//@ bounds: generated blocks of any extent (multiples of 1/4 up to 8) and generated rows of up to 3 intervals, cylindrical or spherical shells (whose normals need not close), meshes of 1-3 cells (row, polygons, polygons with a reflex corner, planar surface in 3D, hexahedra, prism, pyramid, tetrahedra) in 3 frames with arbitrary stretch and translation, faces stored in either orientation in 8 patterns, cells of faces in either order
//@ bounds_quick: blocks up to 8 cells; no stretch for the surface
//@ bounds_thorough: blocks up to 8 cells
//@ quick: -DNC=8
//@ thorough: -DNC=8
#include "sv.h"
#include "tmesh.hh"
#include "simple.hh"
static void check(Jali::Mesh& m, bool flat = true) {
  int sd = m.space_dimension();
  for (int c = 0; c < (int)m.num_cells(); c++) {
    IL cf; std::vector<dir_t> cd;
    m.cell_get_faces_and_dirs(c, &cf, &cd);
    sv_check(cf.size() == cd.size(), "directions-of-all-faces");
    Point cc = m.cell_centroid(c), sum(sd);
    for (int i = 0; i < sd; i++) sum[i] = 0;
    for (size_t k = 0; k < cf.size(); k++) {
      int f = cf[k], od = 77;
      Point n = m.face_normal(f, false, c, &od);
      sv_check(n.dim() == sd, "normal-dimension");
      sv_check(od == cd[k], "reported-orientation");
      for (int i = 0; i < sd; i++) sum[i] += n[i];
      double a = m.face_area(f);
      sv_check(a > 0, "positive-area");
      sv_check_close(dot3(n, n), a * a, 1e-4, "normal-has-length-of-area");
      std::vector<Point> fx; m.face_get_coordinates(f, &fx);
      double out = 0;
      for (int i = 0; i < sd; i++) out += (m.face_centroid(f)[i] - cc[i]) * n[i];
      sv_check(out > 0, "normal-points-out");
      int od2 = 77;
      Point n2 = m.face_normal(f, true, c, &od2);
      close_pt(n2, n, 1e-6, "recomputed-normal");
      sv_check(od2 == od, "recomputed-orientation");
      int od3 = 77;
      Point nat = m.face_normal(f, false, -1, &od3);
      if (m.manifold_dimension() == sd) for (int i = 0; i < sd; i++) sv_check_close(nat[i] * cd[k], n[i], 1e-6, "natural-normal-agrees-with-direction");
      IL fc = fcells(m, f);
      for (int c2 : fc) if (c2 != c) { Point n3 = m.face_normal(f, false, c2); for (int i = 0; i < sd; i++) sv_check_close(n3[i], -n[i], 1e-6, "opposite-in-the-other-cell"); }
    }
    if (flat) for (int i = 0; i < sd; i++) sv_check_close(sum[i], 0.0, 1e-5, "normals-close-the-cell");
  }
}
extern "C" void sv_main() {
  int what = sv_concretize(sv_int("mesh", 0, 9));
  if (what == 8) {
    int nx = sv_int("nx", 1, 2), ny = sv_int("ny", 1, 2), nz = sv_int("nz", 1, 2);
    sv_assume(nx * ny * nz <= NC);
    nx = sv_concretize(nx); ny = sv_concretize(ny); nz = sv_concretize(nz);
    double o[3], L[3];
    for (int i = 0; i < 3; i++) { o[i] = sv_grid("o", -64, 64, 2); L[i] = sv_grid("L", 1, 32, 2); }
    auto m = make3({o[0], o[1], o[2], o[0] + L[0], o[1] + L[1], o[2] + L[2], nx, ny, nz});
    check(*m);
    sv_cover("block");
  } else if (what == 9) {
    int g = sv_concretize(sv_int("geometry", 0, 2));
    std::vector<double> x = {sv_grid("x", g ? 1 : -64, 64, 2)};
    int n = sv_concretize(sv_int("n", 1, 3));
    for (int i = 0; i < n; i++) x.push_back(x[i] + sv_grid("h", 1, 32, 2));
    static const JaliGeometry::Geom_type G[3] = {JaliGeometry::Geom_type::CARTESIAN, JaliGeometry::Geom_type::CYLINDRICAL, JaliGeometry::Geom_type::SPHERICAL};
    auto m = make1(x, G[g]);
    check(*m, g == 0);
    sv_cover(g ? "shells" : "line");
  } else {
    Topo t = pick(what);
    int bits = sv_concretize(sv_int("orient", 0, 7));
    int fr = t.sd == 1 ? 0 : sv_concretize(sv_int("frame", 0, 2));
    place(t, fr, 32, what != 7);
    MeshOpts o; orient(o, bits);
    TestMesh m(t, o);
    check(m);
    sv_obs_d("a", m.face_area(0));
    sv_cover("tables");
  }
}
