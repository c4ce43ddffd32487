// Adjacency tables of a generated mesh are complete and mutually inverse.
//@ sources: mesh geom err
//@ bounds: 3D blocks of nx*ny*nz cells and 1D rows of n cells, every size within the limits below; every entity of each mesh
//@ bounds_quick: nx,ny,nz <= 4 with at most 27 cells, 1D n <= 8
//@ bounds_thorough: nx,ny,nz <= 6 with at most 64 cells, 1D n <= 12
//@ quick: -DN1=8 -DN3=4 -DNC=27
//@ thorough: -DN1=12 -DN3=6 -DNC=64
#include "sv.h"
#include "simple.hh"

extern "C" void sv_main() {
  bool three = sv_concretize(sv_bool("three"));
  if (three) {
    int nx = sv_int("nx", 1, N3), ny = sv_int("ny", 1, N3), nz = sv_int("nz", 1, N3);
    sv_assume((nx * ny * nz <= NC) | ((nx <= 2) & (ny <= 2) & (nz <= 2)) | ((nx == 3) & (ny == 3) & (nz == 3)));
    nx = sv_concretize(nx); ny = sv_concretize(ny); nz = sv_concretize(nz);
    auto m = make3({0, 0, 0, 1, 1, 1, nx, ny, nz});
    sv_check((int)m->num_cells() == nx * ny * nz, "cell-count");
    sv_check((int)m->num_nodes() == (nx + 1) * (ny + 1) * (nz + 1), "node-count");
    sv_check((int)m->num_faces() == (nx + 1) * ny * nz + nx * (ny + 1) * nz + nx * ny * (nz + 1), "face-count");
    sv_check(m->space_dimension() == 3 && m->manifold_dimension() == 3, "dimension");
    check_adjacency(*m);
    for (int c = 0; c < (int)m->num_cells(); c++) {
      sv_check(cnodes(*m, c).size() == 8 && cfaces(*m, c).size() == 6, "hexahedron");
      sv_check(m->cell_get_type(c) == Jali::Cell_type::HEX, "cell-type");
    }
    for (int f = 0; f < (int)m->num_faces(); f++) sv_check(fnodes(*m, f).size() == 4, "quadrilateral-face");
    sv_obs_i("nf", m->num_faces());
    sv_cover("block");
  } else {
    int n = sv_concretize(sv_int("n", 1, N1));
    std::vector<double> x;
    for (int i = 0; i <= n; i++) x.push_back(i * 0.5);
    auto m = make1(x);
    sv_check((int)m->num_cells() == n && (int)m->num_nodes() == n + 1 && (int)m->num_faces() == n + 1, "counts-1d");
    sv_check(m->space_dimension() == 1 && m->manifold_dimension() == 1, "dimension");
    check_adjacency(*m);
    for (int c = 0; c < n; c++) sv_check(cnodes(*m, c).size() == 2 && cfaces(*m, c).size() == 2, "segment");
    for (int f = 0; f <= n; f++) sv_check(fnodes(*m, f).size() == 1, "point-face");
    sv_cover("row");
  }
}
