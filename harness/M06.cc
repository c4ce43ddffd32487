// Sides, wedges and corners form a consistent subdivision of every cell.
//@ sources: mesh geom err
//@ bounds: meshes of 1-3 cells (row, polygons, reflex polygons, hexahedra, prism, pyramid, tetrahedra) 2x2x2 hexahedra and generated rows, faces and edges stored in either orientation (8 patterns), every assignment of owned / ghost to the cells; every side, wedge, corner, cell and node, every requested type
//@ bounds_quick: generated rows of up to 4 cells; quadrilateral grid 2x2
//@ bounds_thorough: generated rows of up to 10 cells; quadrilateral grid 3x3
//@ quick: -DN1=4 -DG2=2
//@ thorough: -DN1=10 -DG2=3
#include "sv.h"
#include "tmesh.hh"
#include "simple.hh"
static const Entity_type T[3] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL};
static IL fedges(Jali::Mesh& m, int f) { if (m.manifold_dimension() == 1) return {f}; IL l; std::vector<dir_t> d; m.face_get_edges_and_dirs(f, &l, &d); return l; }
static void check(Jali::Mesh& m) {
  int md = m.manifold_dimension(), nc = m.num_cells(), nn = m.num_nodes();
  int ns = m.num_sides(), nw = m.num_wedges(), nk = m.num_corners();
  sv_check(nw == 2 * ns, "two-wedges-per-side");
  IL sowner(ns, -1), kowner(nk, -1);
  for (int c = 0; c < nc; c++) {
    IL cs, cw, ck, cf = cfaces(m, c), cn = cnodes(m, c);
    m.cell_get_sides(c, &cs); m.cell_get_wedges(c, &cw); m.cell_get_corners(c, &ck);
    int want = 0;
    for (int f : cf) want += fedges(m, f).size();
    sv_check((int)cs.size() == want && dupfree(cs) && inrange(cs, ns), "sides-of-cell");
    IL pair;
    for (int s : cs) {
      sv_check(sowner[s] == -1, "side-in-one-cell"); sowner[s] = c;
      sv_check(m.side_get_cell(s) == c, "cell-of-side");
      int f = m.side_get_face(s), e = m.side_get_edge(s), a, b;
      sv_check(has(cf, f) && has(fedges(m, f), e), "face-and-edge-of-side");
      m.edge_get_nodes(e, &a, &b);
      int n0 = m.side_get_node(s, 0), n1 = m.side_get_node(s, 1);
      sv_check(((n0 == a) & (n1 == b)) | ((n0 == b) & (n1 == a)), "nodes-of-side-are-nodes-of-edge");
      if (md > 1) { sv_check(n0 != n1, "side-has-two-nodes"); sv_check((m.side_get_edge_use(s) != 0) == (n0 == a), "edge-use"); }
      pair.push_back(f * 1000 + e);
      for (int i = 0; i < 2; i++) {
        int w = m.side_get_wedge(s, i);
        sv_check(has(cw, w), "wedge-in-cell");
        sv_check(m.wedge_get_side(w) == s && m.wedge_get_cell(w) == c && m.wedge_get_face(w) == f && m.wedge_get_edge(w) == e, "parents-of-wedge");
        sv_check(m.wedge_get_node(w) == m.side_get_node(s, i), "node-of-wedge");
        int w2 = m.side_get_wedge(s, 1 - i);
        sv_check(m.wedge_get_adjacent_wedge(w) == w2 && m.wedge_get_adjacent_wedge(w2) == w && w != w2, "adjacent-wedge");
      }
    }
    sv_check(dupfree(pair), "one-side-per-edge-of-face");
    sv_check(cw.size() == 2 * cs.size() && dupfree(cw) && inrange(cw, nw), "wedges-of-cell");
    sv_check(ck.size() == cn.size() && dupfree(ck) && inrange(ck, nk), "corners-of-cell");
    IL kn; size_t total = 0;
    for (int k : ck) {
      sv_check(kowner[k] == -1, "corner-in-one-cell"); kowner[k] = c;
      sv_check(m.corner_get_cell(k) == c, "cell-of-corner");
      int n = m.corner_get_node(k);
      kn.push_back(n);
      sv_check(m.cell_get_corner_at_node(c, n) == k, "corner-at-node");
      IL kw; m.corner_get_wedges(k, &kw);
      sv_check(dupfree(kw) && subset(kw, cw), "wedges-of-corner");
      total += kw.size();
      for (int w : kw) { sv_check(m.wedge_get_corner(w) == k, "corner-of-wedge"); sv_check(m.wedge_get_node(w) == n, "wedges-touch-the-node-of-the-corner"); }
    }
    sv_check(sameset(kn, cn), "one-corner-per-node");
    sv_check(total == cw.size(), "every-wedge-in-a-corner");
    for (int w : cw) { IL kw; int k = m.wedge_get_corner(w); sv_check(has(ck, k), "corner-of-wedge-in-cell"); m.corner_get_wedges(k, &kw); sv_check(has(kw, w), "wedge-in-its-corner"); }
    for (int n = 0; n < nn; n++) if (!has(cn, n)) sv_check(m.cell_get_corner_at_node(c, n) == -1, "no-corner-at-foreign-node");
  }
  for (int s = 0; s < ns; s++) sv_check(sowner[s] >= 0, "side-has-a-cell");
  for (int k = 0; k < nk; k++) sv_check(kowner[k] >= 0, "corner-has-a-cell");
  for (int s = 0; s < ns; s++) {
    int o = m.side_get_opposite_side(s), f = m.side_get_face(s);
    IL fc = fcells(m, f);
    if (fc.size() == 1) sv_check(o == -1, "no-opposite-on-the-boundary");
    else {
      sv_check(o >= 0 && o < ns && o != s, "opposite-exists-inside");
      sv_check(m.side_get_face(o) == f && m.side_get_edge(o) == m.side_get_edge(s), "opposite-across-the-same-face-and-edge");
      sv_check(m.side_get_cell(o) == (fc[0] == m.side_get_cell(s) ? fc[1] : fc[0]), "opposite-in-the-other-cell");
      sv_check(m.side_get_opposite_side(o) == s, "opposite-of-opposite");
    }
    for (int i = 0; i < 2; i++) {
      int w = m.side_get_wedge(s, i), q = m.wedge_get_opposite_wedge(w);
      if (o < 0) sv_check(q == -1, "no-opposite-wedge-on-the-boundary");
      else {
        sv_check(q >= 0 && q < nw && m.wedge_get_side(q) == o, "opposite-wedge-in-opposite-side");
        sv_check(m.wedge_get_opposite_wedge(q) == w, "opposite-of-opposite-wedge");
        sv_check(m.wedge_get_node(q) == m.wedge_get_node(w), "opposite-wedge-at-the-same-node");
      }
    }
  }
  for (int n = 0; n < nn; n++) for (int t = 0; t < 3; t++) {
    IL got, want, gw, ww;
    m.node_get_corners(n, T[t], &got);
    m.node_get_wedges(n, T[t], &gw);
    for (int k = 0; k < nk; k++) if (m.corner_get_node(k) == n && is_type(m, Entity_kind::CELL, m.corner_get_cell(k), T[t])) want.push_back(k);
    for (int w = 0; w < nw; w++) if (m.wedge_get_node(w) == n && is_type(m, Entity_kind::CELL, m.wedge_get_cell(w), T[t])) ww.push_back(w);
    sv_check(dupfree(got) && sameset(got, want), "corners-of-node");
    sv_check(dupfree(gw) && sameset(gw, ww), "wedges-of-node");
  }
}
extern "C" void sv_main() {
  int what = sv_concretize(sv_int("mesh", 0, 9));
  if (what == 7) {
    int n = sv_concretize(sv_int("n", 1, N1));
    std::vector<double> x;
    for (int i = 0; i <= n; i++) x.push_back(i);
    auto m = make1(x, JaliGeometry::Geom_type::CARTESIAN, true, true, true, true);
    check(*m);
    sv_cover("generated-row");
    return;
  }
  Topo t = what == 8 ? grid2(G2, G2) : what == 9 ? grid3(2, 2, 2) : pick(what);
  MeshOpts o; o.corners = true;
  orient(o, sv_concretize(sv_int("orient", 0, 7)));
  if (what == 9) o.ctype.assign(8, T[0]);
  for (size_t c = 0; c < t.cn.size() && c < 3 && what != 9; c++) { char nm[4] = {'c', 't', (char)('0' + c), 0}; o.ctype.push_back(T[sv_concretize(sv_int(nm, 0, 1))]); }
  TestMesh m(t, o);
  check(m);
  sv_cover("tables");
}
