// Entity counts, id lists and ownership types agree.
//@ sources: mesh geom err
//@ bounds: meshes of 2-3 cells (1D row, 2D polygons, 3D hexahedra, prism, pyramid, tetrahedra), every assignment of owned/ghost/boundary-ghost to the cells and, for the row, of owned/ghost to the nodes; every entity kind and type
//@ bounds_quick: 5 of the 7 topologies
//@ bounds_thorough: 7 topologies
//@ quick: -DNT=5
//@ thorough: -DNT=7
#include "sv.h"
#include "tmesh.hh"
#include "simple.hh"
static std::vector<IL> seen;
template <class L> static void kind(Jali::Mesh& m, Entity_kind k, L const& own, L const& gh, L const& bg, L const& all, int nown, int ngh, int nbg, int nall, int total) {
  sv_check((int)own.size() == nown && (int)gh.size() == ngh && (int)bg.size() == nbg && (int)all.size() == nall, "count-is-list-length");
  sv_check((int)m.num_entities(k, Entity_type::PARALLEL_OWNED) == nown && (int)m.num_entities(k, Entity_type::PARALLEL_GHOST) == ngh && (int)m.num_entities(k, Entity_type::BOUNDARY_GHOST) == nbg && (int)m.num_entities(k, Entity_type::ALL) == nall, "num-entities-is-list-length");
  sv_check(nall == total && dupfree(all) && inrange(all, total), "list-of-all");
  sv_check(nown + ngh + nbg == nall && dupfree(own) && dupfree(gh) && dupfree(bg), "lists-add-up");
  for (int e = 0; e < total; e++) {
    int in = has(own, e) + has(gh, e) + has(bg, e);
    sv_check(in == 1, "in-exactly-one-list");
    Entity_type t = m.entity_get_type(k, e);
    sv_check(t == (has(own, e) ? Entity_type::PARALLEL_OWNED : has(gh, e) ? Entity_type::PARALLEL_GHOST : Entity_type::BOUNDARY_GHOST), "type-is-that-of-list");
  }
}
#define KIND(K, names, total) kind(m, Entity_kind::K, m.names<Entity_type::PARALLEL_OWNED>(), m.names<Entity_type::PARALLEL_GHOST>(), m.names<Entity_type::BOUNDARY_GHOST>(), m.names<Entity_type::ALL>(), \
  m.num_##names<Entity_type::PARALLEL_OWNED>(), m.num_##names<Entity_type::PARALLEL_GHOST>(), m.num_##names<Entity_type::BOUNDARY_GHOST>(), m.num_##names<Entity_type::ALL>(), total)
#define KINDN(K, names, total) kind(m, Entity_kind::K, m.names<Entity_type::PARALLEL_OWNED>(), m.names<Entity_type::PARALLEL_GHOST>(), IL(), m.names<Entity_type::ALL>(), \
  m.num_##names<Entity_type::PARALLEL_OWNED>(), m.num_##names<Entity_type::PARALLEL_GHOST>(), 0, m.num_##names<Entity_type::ALL>(), total)
extern "C" void sv_main() {
  int what = sv_concretize(sv_int("mesh", 0, NT + 1));
  if (what == NT) {        // generated meshes
    int nx = sv_concretize(sv_int("nx", 1, 3)), ny = sv_concretize(sv_int("ny", 1, 2));
    bool faces = sv_concretize(sv_bool("faces"));
    auto p = make3({0, 0, 0, 1, 1, 1, nx, ny, 1}, true);
    Jali::Mesh& m = *p;
    KINDN(NODE, nodes, (nx + 1) * (ny + 1) * 2); KIND(CELL, cells, nx * ny);
    (void)faces;
    KINDN(FACE, faces, (nx + 1) * ny + nx * (ny + 1) + 2 * nx * ny);
    KINDN(EDGE, edges, 0);
    sv_cover("generated-block");
    return;
  }
  if (what == NT + 1) {
    int n = sv_concretize(sv_int("n", 1, 4));
    std::vector<double> x;
    for (int i = 0; i <= n; i++) x.push_back(i);
    auto p = make1(x, JaliGeometry::Geom_type::CARTESIAN, true, true, true, true);
    Jali::Mesh& m = *p;
    KINDN(NODE, nodes, n + 1); KIND(CELL, cells, n); KINDN(FACE, faces, n + 1); KINDN(EDGE, edges, n + 1);
    KIND(SIDE, sides, 2 * n); KIND(WEDGE, wedges, 4 * n); KIND(CORNER, corners, 2 * n);
    sv_cover("generated-row");
    return;
  }
  static const Entity_type T[3] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::BOUNDARY_GHOST};
  Topo t = pick(what);
  MeshOpts o;
  o.corners = true;
  for (size_t c = 0; c < t.cn.size(); c++) { char nm[4] = {'c', 't', (char)('0' + c), 0}; o.ctype.push_back(T[sv_concretize(sv_int(nm, 0, 2))]); }
  if (what == 0) for (int n = 0; n < 2; n++) o.ntype.push_back(T[sv_concretize(sv_int(n ? "nt1" : "nt0", 0, 1))]);
  TestMesh m(t, o);
  int ns = 0, nk = 0;
  for (int c = 0; c < (int)t.cn.size(); c++) { nk += t.cn[c].size(); for (int f : m.cfl[c]) ns += t.md == 1 ? 1 : t.md == 2 ? 1 : m.fn[f].size(); }
  KINDN(NODE, nodes, (int)m.x.size()); KIND(CELL, cells, (int)t.cn.size()); KINDN(FACE, faces, (int)m.fn.size()); KINDN(EDGE, edges, (int)m.en.size());
  KIND(SIDE, sides, ns); KIND(WEDGE, wedges, 2 * ns); KIND(CORNER, corners, nk);
  for (int c = 0; c < (int)m.tc.size(); c++) sv_check(m.entity_get_type(Entity_kind::CELL, c) == m.tc[c], "cell-type");
  for (int f = 0; f < (int)m.tf.size(); f++) sv_check(m.entity_get_type(Entity_kind::FACE, f) == m.tf[f], "face-type");
  for (int e = 0; e < (int)m.te.size(); e++) sv_check(m.entity_get_type(Entity_kind::EDGE, e) == m.te[e], "edge-type");
  for (int n = 0; n < (int)m.tn.size(); n++) sv_check(m.entity_get_type(Entity_kind::NODE, n) == m.tn[n], "node-type");
  for (int s = 0; s < ns; s++) {
    Entity_type ty = m.tc[m.side_get_cell(s)];
    sv_check(m.entity_get_type(Entity_kind::SIDE, s) == ty, "side-has-type-of-cell");
    for (int w = 2 * s; w < 2 * s + 2; w++) sv_check(m.entity_get_type(Entity_kind::WEDGE, w) == ty, "wedge-has-type-of-cell");
  }
  for (int k = 0; k < nk; k++) sv_check(m.entity_get_type(Entity_kind::CORNER, k) == m.tc[m.corner_get_cell(k)], "corner-has-type-of-cell");
  sv_cover("tables");
}
