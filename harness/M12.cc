// Edge, face and cell edge lists are consistent and correctly directed.
//@ sources: mesh geom err
//@ bounds: meshes of 1-4 cells (row, polygons, reflex polygons, planar surface in 3D, 2x2 quadrilaterals, 2x2x2 hexahedra, hexahedra, prism, pyramid, tetrahedra) and generated rows of up to 6 cells, faces and edges stored in either orientation (8 patterns); every face, cell and edge (in a row, where edges and faces are both points, the edges of faces are left open)
#include "sv.h"
#include "tmesh.hh"
#include "simple.hh"
extern "C" void sv_main() {
  int what = sv_concretize(sv_int("mesh", 0, 10));
  if (what == 9) {
    int n = sv_concretize(sv_int("n", 1, 6));
    std::vector<double> x;
    for (int i = 0; i <= n; i++) x.push_back(i);
    auto m = make1(x, JaliGeometry::Geom_type::CARTESIAN, true);
    for (int e = 0; e <= n; e++) { int a = -7, b = -7; m->edge_get_nodes(e, &a, &b); sv_check(a == e && b == e, "edge-of-a-row-is-its-node"); }
    for (int c = 0; c < n; c++) { IL l; m->cell_get_edges(c, &l); sv_check(sameset(l, cnodes(*m, c)), "edges-of-a-row-cell-are-its-nodes"); }
    sv_cover("generated-row");
    return;
  }
  Topo t = what == 8 ? grid2(2, 2) : what == 10 ? grid3(2, 2, 2) : pick(what);
  MeshOpts o; o.edges = true;
  orient(o, sv_concretize(sv_int("orient", 0, 7)));
  TestMesh m(t, o);
  int ne = m.num_edges();
  for (int e = 0; e < ne; e++) { int a = -7, b = -7; m.edge_get_nodes(e, &a, &b); sv_check(a == m.en[e][0] && b == m.en[e][1], "nodes-of-edge"); }
  for (int f = 0; f < (int)m.num_faces(); f++) {
    IL l, fn = fnodes(m, f), l2; std::vector<dir_t> d;
    m.face_get_edges_and_dirs(f, &l, &d);
    m.face_get_edges_and_dirs(f, &l2, nullptr);
    sv_check(l == l2 && l.size() == d.size() && dupfree(l) && inrange(l, ne), "edges-of-face-valid");
    IL want;
    for (int e = 0; e < ne; e++) {
      int a, b; m.edge_get_nodes(e, &a, &b);
      if (!has(fn, a) || !has(fn, b)) continue;
      size_t p = 0; while (fn[p] != a) p++;
      size_t n = fn.size();
      if (fn[(p + 1) % n] == b || fn[(p + n - 1) % n] == b) want.push_back(e);
    }
    sv_check(sameset(l, want), "edges-of-face");
    if (t.md == 3) for (size_t i = 0; i < l.size(); i++) {
      int a, b; m.edge_get_nodes(l[i], &a, &b);
      size_t p = 0; while (fn[p] != a) p++;
      sv_check(d[i] == (fn[(p + 1) % fn.size()] == b ? 1 : -1), "direction-of-edge-in-face");
    }
  }
  for (int c = 0; c < (int)m.num_cells(); c++) {
    IL l, cf = cfaces(m, c), want; m.cell_get_edges(c, &l);
    for (int f : cf) { IL fe; std::vector<dir_t> d; m.face_get_edges_and_dirs(f, &fe, &d); for (int e : fe) if (!has(want, e)) want.push_back(e); }
    sv_check(dupfree(l) && sameset(l, want), "edges-of-cell");
    for (int f : cf) {
      std::vector<int> map; IL fe; std::vector<dir_t> d;
      m.face_get_edges_and_dirs(f, &fe, &d);
      m.face_to_cell_edge_map(f, c, &map);
      sv_check(map.size() == fe.size(), "edge-map-size");
      for (size_t i = 0; i < fe.size(); i++) sv_check(map[i] >= 0 && map[i] < (int)l.size() && l[map[i]] == fe[i], "edge-map");
    }
    if (t.sd == 2) {
      IL l2; std::vector<dir_t> d; m.cell_2D_get_edges_and_dirs(c, &l2, &d);
      sv_check(l2 == l && d.size() == l2.size(), "2d-edges-and-directions");
      IL cn = cnodes(m, c);
      for (size_t i = 0; i < l2.size(); i++) {
        int a, b; m.edge_get_nodes(l2[i], &a, &b);
        size_t p = 0; while (cn[p] != a) p++;
        sv_check(d[i] == (cn[(p + 1) % cn.size()] == b ? 1 : -1), "direction-of-edge-in-2d-cell");
      }
    }
  }
  sv_cover("tables");
}
