// After nodes have moved and update_geometric_quantities has been called, every
// geometric answer is that of a mesh built at the new positions.
//@ sources: mesh geom err
//@ bounds: meshes of 1-3 cells (row in three geometries, polygons, reflex polygons, planar surface, hexahedra, prism, pyramid, tetrahedra) in any ownership with one cell owned, parallel ghost or boundary ghost; histories of rounds, each of which moves all nodes to a new frame with arbitrary stretch (1/4..4) and translation (multiples of 1/4 in [-8,8]), or one node by an arbitrary displacement up to 1/8 per axis, through either overload of node_set_coordinates; every cell, face, edge, side, wedge and corner
//@ bounds_quick: 2 rounds, storage orientation 0 and 5
//@ bounds_thorough: 3 rounds, 4 storage orientations
//@ quick: -DROUNDS=2 -DNB=2
//@ thorough: -DROUNDS=3 -DNB=4
#include "sv.h"
#include "tmesh.hh"
static double TOL = 1e-7;
static void same(Point const& a, Point const& b, char const* l) { close_pt(a, b, TOL, l); }
static void num(double a, double b, char const* l) { sv_check_close(a, b, TOL, l); }
extern "C" void sv_main() {
  int what = sv_concretize(sv_int("mesh", 0, 9));
  int ob = sv_concretize(sv_int("orient", 0, NB - 1));
  static const int PAT[4] = {0, 5, 3, 6};
  int gm = what >= 8 ? what - 7 : 0;
  int kind = what >= 8 ? 0 : what;
  Topo t = pick(kind);
  bool one = t.sd == t.md && (t.sd == 2 || kind == 5) && sv_concretize(sv_int("one-node-at-a-time", 0, 1));
  if (!one) place(t, 0, 8, false);
  MeshOpts o; orient(o, PAT[ob]);
  o.corners = true;
  o.geom = gm == 0 ? JaliGeometry::Geom_type::CARTESIAN : gm == 1 ? JaliGeometry::Geom_type::CYLINDRICAL : JaliGeometry::Geom_type::SPHERICAL;
  int own = sv_concretize(sv_int("ownership-of-first-cell", 0, 2));
  o.ctype.push_back(own == 0 ? Entity_type::PARALLEL_OWNED : own == 1 ? Entity_type::PARALLEL_GHOST : Entity_type::BOUNDARY_GHOST);
  TestMesh m(t, o);
  int nn = t.xyz.size(), sd = t.sd;
  bool flat = t.sd == t.md;
  for (int r = 0; r < ROUNDS; r++) {
    if (!one) {
      Topo u = pick(kind);
      place(u, sd == 1 ? 0 : 1 + r % 2, 32, true);
      for (int n = 0; n < nn; n++) t.xyz[n] = u.xyz[n];
      for (int n = 0; n < nn; n++) {
        if (n % 2) m.node_set_coordinates(n, t.xyz[n].data());
        else { Point p(sd); for (int k = 0; k < sd; k++) p[k] = t.xyz[n][k]; m.node_set_coordinates(n, p); }
      }
    } else {
      // the faces of hexahedra, prisms and pyramids become curved when one node moves
      int n = (nn - 1 + 2 * r) % nn;
      for (int k = 0; k < (sd == 2 ? 2 : 1); k++) t.xyz[n][k] = t.xyz[n][k] + sv_grid("move", -4, 4, 5);
      m.node_set_coordinates(n, t.xyz[n].data());
    }
    TestMesh f(t, o);
    int ns = f.num_sides();
    sv_check(m.num_sides() == ns && m.num_wedges() == 2 * ns && m.num_corners() == f.num_corners(), "counts-unchanged");
    // recomputed answers are those of the current positions, whatever is stored
    for (int c = 0; c < (int)t.cn.size(); c++) {
      if (m.entity_get_type(Entity_kind::CELL, c) == Entity_type::BOUNDARY_GHOST) continue;
      num(f.cell_volume(c), m.cell_volume(c, true), "recomputed-cell-volume");
      same(f.cell_centroid(c), m.cell_centroid(c, true), "recomputed-cell-centroid");
    }
    for (int a = 0; a < (int)m.fn.size(); a++) {
      num(f.face_area(a), m.face_area(a, true), "recomputed-face-area");
      same(f.face_centroid(a), m.face_centroid(a, true), "recomputed-face-centroid");
      if (!flat) continue;
      same(f.face_normal(a), m.face_normal(a, true), "recomputed-face-normal");
      for (int c : m.fc[a]) same(f.face_normal(a, false, c), m.face_normal(a, true, c), "recomputed-face-normal");
    }
    for (int e = 0; e < (int)m.en.size(); e++) {
      num(f.edge_length(e), m.edge_length(e, true), "recomputed-edge-length");
      same(f.edge_vector(e), m.edge_vector(e, true), "recomputed-edge-vector");
      same(f.edge_centroid(e), m.edge_centroid(e), "edge-centroid");
    }
    for (int s = 0; s < ns; s++) {
      if (m.entity_get_type(Entity_kind::SIDE, s) == Entity_type::BOUNDARY_GHOST) continue;
      num(f.side_volume(s), m.side_volume(s, true), "recomputed-side-volume");
      if (flat) same(f.side_facet_normal(s), m.side_facet_normal(s, true), "recomputed-side-normal");
      for (int w = 2 * s; w < 2 * s + 2; w++) {
        num(f.wedge_volume(w), m.wedge_volume(w, true), "recomputed-wedge-volume");
        if (flat) for (int k = 0; k < 2; k++) same(f.wedge_facet_normal(w, k), m.wedge_facet_normal(w, k, true), "recomputed-wedge-normal");
      }
    }
    for (int k = 0; k < f.num_corners(); k++)
      if (m.entity_get_type(Entity_kind::CORNER, k) != Entity_type::BOUNDARY_GHOST) num(f.corner_volume(k), m.corner_volume(k, true), "recomputed-corner-volume");
    m.update_geometric_quantities();
    for (int c = 0; c < (int)t.cn.size(); c++) {
      num(m.cell_volume(c), f.cell_volume(c), "cell-volume");
      same(m.cell_centroid(c), f.cell_centroid(c), "cell-centroid");
    }
    for (int a = 0; a < (int)m.fn.size(); a++) {
      num(m.face_area(a), f.face_area(a), "face-area");
      same(m.face_centroid(a), f.face_centroid(a), "face-centroid");
      if (!flat) continue;
      same(m.face_normal(a), f.face_normal(a), "face-normal");
      for (int c : m.fc[a]) {
        int d1, d2;
        same(m.face_normal(a, false, c, &d1), f.face_normal(a, false, c, &d2), "outward-face-normal");
        sv_check(d1 == d2, "face-orientation");
      }
    }
    for (int e = 0; e < (int)m.en.size(); e++) {
      num(m.edge_length(e), f.edge_length(e), "edge-length");
      same(m.edge_centroid(e), f.edge_centroid(e), "edge-centroid");
      same(m.edge_vector(e), f.edge_vector(e), "edge-vector");
    }
    for (int s = 0; s < ns; s++) {
      num(m.side_volume(s), f.side_volume(s), "side-volume");
      if (flat) {
        same(m.side_facet_normal(s), f.side_facet_normal(s), "side-normal");
      }
      for (int i = 0; i < 2; i++) {
        int w = 2 * s + i;
        num(m.wedge_volume(w), f.wedge_volume(w), "wedge-volume");
        if (!flat) continue;
        for (int k = 0; k < 2; k++) {
          same(m.wedge_facet_normal(w, k), f.wedge_facet_normal(w, k), "wedge-normal");
        }
      }
    }
    for (int k = 0; k < f.num_corners(); k++) {
      num(m.corner_volume(k), f.corner_volume(k), "corner-volume");
    }
  }
  sv_obs_d("v", m.cell_volume(t.cn.size() - 1));
  sv_cover(t.md == 1 ? "row" : t.md == 2 ? "polygons" : "polyhedra");
}
