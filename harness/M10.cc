// Neighbour queries return exactly the entities of the requested type.
//@ sources: mesh geom err
//@ bounds: generated blocks and rows within the limits below, and meshes of 2-3 cells of any ownership, 3x3 quadrilaterals and 2x2x2 hexahedra with any one cell a ghost, behind the framework interface; every entity, every requested type
//@ bounds_quick: blocks up to 3x2x2 and 3x3x3, rows up to 4
//@ bounds_thorough: blocks up to 4x3x2 and 3x3x3, rows up to 8
//@ quick: -DN3=3 -DNC=12 -DN1=4
//@ thorough: -DN3=4 -DNC=27 -DN1=8
#include "sv.h"
#include "tmesh.hh"
#include "simple.hh"
static const Entity_type T[4] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL, Entity_type::BOUNDARY_GHOST};
extern "C" void sv_main() {
  int what = sv_concretize(sv_int("mesh", 0, 6));
  int ty = sv_concretize(sv_int("type", 0, 2));
  if (what == 0) {
    int nx = sv_int("nx", 1, N3), ny = sv_int("ny", 1, N3), nz = sv_int("nz", 1, N3);
    sv_assume((nx * ny * nz <= NC) | ((nx <= 2) & (ny <= 2) & (nz <= 2)) | ((nx == 3) & (ny == 3) & (nz == 3)));
    nx = sv_concretize(nx); ny = sv_concretize(ny); nz = sv_concretize(nz);
    auto m = make3({0, 0, 0, 1, 1, 1, nx, ny, nz});
    check_neighbours(*m, T[ty]);
    sv_cover("block");
  } else if (what == 1) {
    int n = sv_concretize(sv_int("n", 1, N1));
    std::vector<double> x;
    for (int i = 0; i <= n; i++) x.push_back(i);
    auto m = make1(x);
    check_neighbours(*m, T[ty]);
    sv_cover("row");
  } else {
    Topo t = what == 2 ? row({0, 1, 2, 3}) : what == 3 ? patch2() : what == 4 ? hexpyr() : what == 5 ? grid2(3, 3) : grid3(2, 2, 2);
    MeshOpts o;
    if (what > 4) { for (size_t c = 0; c < t.cn.size(); c++) o.ctype.push_back(T[0]); int g = sv_concretize(sv_int("ghost-cell", 0, t.cn.size())); if (g < (int)t.cn.size()) o.ctype[g] = T[1]; }
    else for (size_t c = 0; c < t.cn.size(); c++) { char nm[4] = {'c', 't', (char)('0' + c), 0}; o.ctype.push_back(T[sv_concretize(sv_int(nm, 0, 1))]); }
    TestMesh m(t, o);
    check_neighbours(m, T[ty]);
    sv_cover("tables");
  }
}
