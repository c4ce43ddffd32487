// Facet normals of sides and wedges.
//@ sources: mesh geom err
//@ bounds: meshes of 1-3 cells (rows with arbitrary increasing coordinates in three geometries, polygons, polygons with a reflex corner, hexahedra, prism, pyramid, tetrahedra) in 3 affine frames with arbitrary stretch (1/4..4) and translation (multiples of 1/4 in [-8,8]); faces and edges stored in either orientation; every side and wedge facet
//@ bounds_quick: orientation patterns 0, 3 and 5
//@ bounds_thorough: 8 patterns
//@ quick: -DNB=3
//@ thorough: -DNB=8
#include "sv.h"
#include "tmesh.hh"
static void close(Point const& a, Point const& b, char const* lab) {
  for (int k = 0; k < a.dim(); k++) sv_check_close(a[k], b[k], 1e-7, lab);
}
static Point minus(Point const& a) { Point r(a); for (int k = 0; k < a.dim(); k++) r[k] = -a[k]; return r; }
static Point sub(Point const& a, Point const& b) { Point r(a); for (int k = 0; k < a.dim(); k++) r[k] = a[k] - b[k]; return r; }
static double n2(Point const& a) { return dot3(a, a); }
static Point half_cross(Point const& u, Point const& v) { Point r(3); for (int k = 0; k < 3; k++) r[k] = (u[(k + 1) % 3] * v[(k + 2) % 3] - u[(k + 2) % 3] * v[(k + 1) % 3]) / 2; return r; }
extern "C" void sv_main() {
  int what = sv_concretize(sv_int("mesh", 0, 8));
#if NB == 8
  int bits = sv_concretize(sv_int("orient", 0, 7));
#else
  int ob = sv_concretize(sv_int("orient", 0, 2)), bits = ob == 0 ? 0 : ob == 1 ? 3 : 5;
#endif
  int gm = what >= 7 ? what - 6 : 0;
  Topo t = pick(what >= 7 ? 0 : what);
  int fr = t.sd == 1 ? 0 : sv_concretize(sv_int("frame", 0, 2));
  place(t, fr, 32, true);
  MeshOpts o; orient(o, bits);
  o.corners = true;
  o.geom = gm == 0 ? JaliGeometry::Geom_type::CARTESIAN : gm == 1 ? JaliGeometry::Geom_type::CYLINDRICAL : JaliGeometry::Geom_type::SPHERICAL;
  TestMesh m(t, o);
  int md = t.md;
  for (int c = 0; c < (int)t.cn.size(); c++) {
    IL cs; m.cell_get_sides(c, &cs);
    Point cc = m.cell_centroid(c);
    for (int s : cs) {
      Point n = m.side_facet_normal(s);
      close(m.side_facet_normal(s, true), n, "recomputed-side-normal");
      Point a = m.at(m.side_get_node(s, 0)), b = m.at(m.side_get_node(s, 1));
      int f = m.side_get_face(s);
      Point fcen = m.face_centroid(f);
      sv_check(dot3(n, sub(fcen, cc)) > 0, "side-normal-points-out");
      // magnitude and direction of the facet
      if (md == 1) {
        double A = gm == 0 ? 1.0 : gm == 1 ? 2 * M_PI * a[0] : 4 * M_PI * a[0] * a[0];
        sv_check_close(n2(n), A * A, 1e-3, "side-normal-magnitude");
      } else if (md == 2) {
        Point d = sub(b, a);
        sv_check_close(n2(n), n2(d), 1e-7, "side-normal-magnitude");
        sv_check_close(dot3(n, d), 0, 1e-7, "side-normal-perpendicular");
      } else {
        Point e = half_cross(sub(b, a), sub(fcen, a));
        sv_check_close(n2(n), n2(e), 1e-5, "side-normal-magnitude");
        sv_check_close(dot3(n, sub(b, a)), 0, 1e-6, "side-normal-perpendicular");
        sv_check_close(dot3(n, sub(fcen, a)), 0, 1e-6, "side-normal-perpendicular");
      }
      int op = m.side_get_opposite_side(s);
      if (op >= 0) close(m.side_facet_normal(op), minus(n), "opposite-side-has-opposite-normal");
      for (int i = 0; i < 2; i++) {
        int w = m.side_get_wedge(s, i);
        Point w0 = m.wedge_facet_normal(w, 0), w1 = m.wedge_facet_normal(w, 1);
        close(m.wedge_facet_normal(w, 0, true), w0, "recomputed-wedge-normal");
        Point h(n); for (int k = 0; k < n.dim(); k++) h[k] = n[k] / 2;
        close(w0, h, "wedge-facet-is-half-the-side-facet");
        if (md == 1) continue;
        close(m.wedge_facet_normal(w, 1, true), w1, "recomputed-wedge-normal");
        int wa = m.wedge_get_adjacent_wedge(w);
        close(m.wedge_facet_normal(wa, 1), minus(w1), "adjacent-wedge-has-opposite-normal");
        Point nd = m.at(m.wedge_get_node(w));
        Point ecen = m.edge_centroid(m.wedge_get_edge(w));
        sv_check(dot3(w1, sub(ecen, nd)) > 0, "mid-normal-points-from-node-to-edge-centre");
        Point r = sub(cc, ecen);
        sv_check_close(dot3(w1, r), 0, 1e-6, "mid-normal-perpendicular");
        if (md == 2) sv_check_close(n2(w1), n2(r), 1e-6, "mid-normal-magnitude");
        else {
          Point q = sub(fcen, ecen);
          sv_check_close(dot3(w1, q), 0, 1e-6, "mid-normal-perpendicular");
          sv_check_close(n2(w1), n2(half_cross(q, r)), 1e-5, "mid-normal-magnitude");
        }
        int wo = m.wedge_get_opposite_wedge(w);
        if (wo >= 0) close(m.wedge_facet_normal(wo, 0), minus(w0), "opposite-wedge-has-opposite-normal");
      }
    }
    // sides on a face of the cell make up the outward normal of the face; all together close the cell
    Point S(t.sd);
    S.set(0.0);
    for (int f : m.cfl[c]) {
      Point N(t.sd); N.set(0.0);
      for (int s : cs) if (m.side_get_face(s) == f) N = N + m.side_facet_normal(s);
      Point F = m.face_normal(f, false, c);
      for (int k = 0; k < t.sd; k++) sv_check_close(N[k], F[k], 1e-6, "sides-make-up-the-face-normal");
      S = S + N;
    }
    if (gm == 0) for (int k = 0; k < t.sd; k++) sv_check_close(S[k], 0, 1e-6, "side-normals-close-the-cell");
  }
  sv_cover(md == 1 ? "row" : md == 2 ? "polygons" : "polyhedra");
}
