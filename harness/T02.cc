// Partitions of the cells of a mesh into tiles.
//@ sources: mesh geom err
//@ bounds: METIS with any labelling it may return, index space, blocks, and the two Zoltan partitioners (which the library replaces by index space); generated meshes of up to NX x 2 x 2 hexahedra and any 1D cells of arbitrary increasing coordinates, 2D grids with arbitrary positions of the lines, polygons, hexahedra, mixed cells, a planar surface, with the last cell owned or ghost; up to MAXT tiles (more than cells included), with and without faces
//@ bounds_quick: NX=2, MAXT=4
//@ bounds_thorough: NX=3, MAXT=6
//@ quick: -DNX=2 -DMAXT=4
//@ thorough: -DNX=3 -DMAXT=6
#include "sv.h"
#include "tmesh.hh"
#include "simple.hh"
#include "tiles.hh"
using Jali::Partitioner_type;
extern "C" void sv_main() {
  static const Partitioner_type P[5] = {Partitioner_type::INDEX, Partitioner_type::BLOCK, Partitioner_type::METIS, Partitioner_type::ZOLTAN_GRAPH, Partitioner_type::ZOLTAN_RCB};
  int which = sv_concretize(sv_int("partitioner", 0, 4)), kind = sv_concretize(sv_int("mesh", 0, 10));
  int nt = sv_concretize(sv_int("tiles", 1, MAXT));
  Partitioner_type p = P[which];
  if (kind == 8) {
    sv_assume(which != 2 || nt <= 3);
    int nx = sv_concretize(sv_int("nx", 1, NX)), ny = sv_concretize(sv_int("ny", 1, 2)), nz = sv_concretize(sv_int("nz", 1, 2));
    sv_assume(which != 2 || nx * ny * nz <= 4);
    double x0 = sv_grid("x0", -8, 8, 2), L = sv_grid("L", 1, 16, 2);
    auto m = make3(Box3{x0, -1, 2, x0 + L, 1, 5, nx, ny, nz}, sv_concretize(sv_int("with-faces", 0, 1)), nt, 0, p);
    check_cover(*m, nt);
    sv_cover("generated-3d");
  } else if (kind == 9) {
    int n = sv_concretize(sv_int("cells", 1, 4));
    std::vector<double> x(n + 1);
    bool up = true;
    for (int i = 0; i <= n; i++) { x[i] = sv_grid("x", 1, 32, 2); if (i) up = up & (x[i - 1] < x[i]); }
    sv_assume(up);
    auto m = make1(x, sv_concretize(sv_int("spherical", 0, 1)) ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN, false, false, false, false, nt, 0, p);
    check_cover(*m, nt);
    sv_cover("generated-1d");
  } else {
    Topo t = kind == 10 ? grid2(3, 2) : pick(kind);
    if (kind == 10) {                                // lines of the grid anywhere
      double a = sv_grid("a", 1, 31, 4), b = sv_grid("b", 1, 47, 4), c = sv_grid("c", 1, 31, 4);
      sv_assume(a < b);
      sv_assume(b < 3);
      for (auto& q : t.xyz) { if (q[0] == 1) q[0] = a; else if (q[0] == 2) q[0] = b; if (q[1] == 1) q[1] = c; }
      sv_assume(c < 2);
    }
    MeshOpts o; o.ntiles = nt; o.pt = p; o.faces = sv_concretize(sv_int("with-faces", 0, 1));
    int nc = t.cn.size();
    bool ghost = sv_concretize(sv_int("last-cell-is-a-ghost", 0, 1));
    for (int c = 0; c < nc; c++) o.ctype.push_back(ghost && c == nc - 1 ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED);
    sv_assume(kind != 10 || which != 2 || nt < 3);
    TestMesh m(t, o);
    check_cover(m, nt);
    sv_cover(which == 2 ? "metis" : which == 1 ? "blocks" : "index-space");
  }
}
