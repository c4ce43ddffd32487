// Sub-cell volumes are positive and add up to the cell volume.
//@ sources: mesh geom err
//@ bounds: meshes of 1-3 cells (rows with arbitrary increasing coordinates in three geometries, polygons, polygons with a reflex corner, planar surface in 3D, hexahedra, prism, pyramid, tetrahedra) in 3 affine frames with arbitrary stretch (1/4..4) and translation (multiples of 1/4 in [-8,8]); faces and edges stored in either orientation; every side, wedge and corner
//@ bounds_quick: orientation patterns 0, 3 and 5
//@ bounds_thorough: 8 patterns
//@ quick: -DNB=3
//@ thorough: -DNB=8
#include "sv.h"
#include "tmesh.hh"
static double det(Point const& a, Point const& b, Point const& c, Point const& d) {
  double u[3], v[3], w[3];
  for (int k = 0; k < 3; k++) { u[k] = b[k] - a[k]; v[k] = c[k] - a[k]; w[k] = d[k] - a[k]; }
  return w[0] * (u[1] * v[2] - u[2] * v[1]) + w[1] * (u[2] * v[0] - u[0] * v[2]) + w[2] * (u[0] * v[1] - u[1] * v[0]);
}
static double area2(std::vector<Point> const& p) { double s = 0; for (size_t i = 1; i + 1 < p.size(); i++) s += ((p[i][0] - p[0][0]) * (p[i + 1][1] - p[0][1]) - (p[i][1] - p[0][1]) * (p[i + 1][0] - p[0][0])) / 2; return s; }
// signed measure of a simplex in the order given
static double measure(std::vector<Point> const& p, int md) { return md == 3 ? det(p[0], p[1], p[2], p[3]) / 6 : md == 2 ? area2(p) : p[1][0] - p[0][0]; }
static double shell(double a, double b, int g) { return g == 0 ? b - a : g == 1 ? M_PI * (b * b - a * a) : 4.0 / 3 * M_PI * (b * b * b - a * a * a); }
extern "C" void sv_main() {
  int what = sv_concretize(sv_int("mesh", 0, 9));
#if NB == 8
  int bits = sv_concretize(sv_int("orient", 0, 7));
#else
  int ob = sv_concretize(sv_int("orient", 0, 2)), bits = ob == 0 ? 0 : ob == 1 ? 3 : 5;
#endif
  int gm = what >= 8 ? what - 7 : 0;
  Topo t = pick(what >= 8 ? 0 : what);
  int fr = t.sd == 1 ? 0 : sv_concretize(sv_int("frame", 0, 2));
  place(t, fr, 32, true);
  MeshOpts o; orient(o, bits);
  o.corners = true;
  o.geom = gm == 0 ? JaliGeometry::Geom_type::CARTESIAN : gm == 1 ? JaliGeometry::Geom_type::CYLINDRICAL : JaliGeometry::Geom_type::SPHERICAL;
  TestMesh m(t, o);
  int md = t.md, sd = t.sd;
  bool flat = md == sd;
  for (int c = 0; c < (int)t.cn.size(); c++) {
    double V = m.cell_volume(c), S = 0, W = 0, K = 0;
    Point cc = m.cell_centroid(c);
    IL cs, ck; m.cell_get_sides(c, &cs); m.cell_get_corners(c, &ck);
    for (int s : cs) {
      double v = m.side_volume(s);
      sv_check(v > 0, "positive-side-volume");
      S += v;
      sv_check_close(m.side_volume(s, true), v, 1e-8, "recomputed-side-volume");
      std::vector<Point> p, q;
      m.side_get_coordinates(s, &p, true);
      m.side_get_coordinates(s, &q);
      sv_check((int)p.size() == md + 1 && (int)q.size() == md + 1, "side-point-count");
      Point a = m.at(m.side_get_node(s, 0)), b = m.at(m.side_get_node(s, 1));
      close_pt(q[0], a, 1e-9, "side-coordinates");
      if (md > 1) close_pt(q[1], b, 1e-9, "side-coordinates");
      if (md == 3) close_pt(q[2], m.face_centroid(m.side_get_face(s)), 1e-9, "side-coordinates");
      close_pt(q[md], cc, 1e-9, "side-coordinates");
      if (flat) {
        double w = measure(p, md);
        sv_check(w > 0, "positive-order-of-side");
        if (gm == 0) sv_check_close(w, v, 1e-6, "side-volume-of-its-coordinates");
        else sv_check_close(shell(p[0][0], p[1][0], gm), v, 1e-4, "side-volume-of-its-shell");
      }
      for (int i = 0; i < 2; i++) {
        int w = m.side_get_wedge(s, i);
        double wv = m.wedge_volume(w);
        sv_check_close(wv, v / 2, 1e-8, "wedge-is-half-a-side");
        sv_check_close(m.wedge_volume(w, true), wv, 1e-8, "recomputed-wedge-volume");
        W += wv;
        std::vector<Point> wp, wq;
        m.wedge_get_coordinates(w, &wp, true);
        m.wedge_get_coordinates(w, &wq);
        sv_check((int)wp.size() == md + 1 && (int)wq.size() == md + 1, "wedge-point-count");
        close_pt(wq[0], m.at(m.wedge_get_node(w)), 1e-9, "wedge-coordinates");
        if (md == 3) { close_pt(wq[1], m.edge_centroid(m.wedge_get_edge(w)), 1e-9, "wedge-coordinates"); close_pt(wq[2], m.face_centroid(m.wedge_get_face(w)), 1e-9, "wedge-coordinates"); }
        if (md == 2) close_pt(wq[1], m.face_centroid(m.wedge_get_face(w)), 1e-9, "wedge-coordinates");
        close_pt(wq[md], cc, 1e-9, "wedge-coordinates");
        if (flat) {
          double x = measure(wp, md);
          sv_check(x > 0, "positive-order-of-wedge");
          if (md > 1) sv_check_close(x, wv, 1e-6, "wedge-volume-of-its-coordinates");
        }
      }
    }
    sv_check_close(S, V, 1e-5, "sides-add-up-to-cell");
    sv_check_close(W, V, 1e-5, "wedges-add-up-to-cell");
    for (int k : ck) {
      double v = m.corner_volume(k), x = 0;
      sv_check(v > 0, "positive-corner-volume");
      K += v;
      sv_check_close(m.corner_volume(k, true), v, 1e-7, "recomputed-corner-volume");
      IL kw; m.corner_get_wedges(k, &kw);
      for (int w : kw) x += m.wedge_volume(w);
      sv_check_close(x, v, 1e-7, "corner-is-its-wedges");
      if (!flat) continue;
      std::vector<Point> p;
      m.corner_get_coordinates(k, &p);
      Point nd = m.at(m.corner_get_node(k));
      close_pt(p[0], md == 1 && m.corner_get_node(k) == t.cn[c][1] ? cc : nd, 1e-9, "corner-starts-at-its-node");
      if (md == 1) { sv_check(p.size() == 2, "corner-point-count"); sv_check(p[1][0] - p[0][0] > 0, "positive-order-of-corner"); }
      else if (md == 2) { sv_check(p.size() == 4, "corner-point-count"); close_pt(p[2], cc, 1e-9, "corner-contains-cell-centre"); sv_check_close(area2(p), v, 1e-6, "positive-order-of-corner"); }
      else { close_pt(p[p.size() - 1], cc, 1e-9, "corner-ends-at-cell-centre"); sv_check(p.size() == 2 + kw.size() / 2 + kw.size() / 2, "corner-point-count"); }
      // facets bound the corner
      std::vector<Point> fp;
      if (md == 3) {
        std::vector<std::array<Entity_ID, 3>> ft(1, std::array<Entity_ID, 3>{{7, 7, 7}});
        m.corner_get_facetization(k, &fp, &ft);
        double y = 0;
        for (auto const& f : ft) y += det(nd, fp[f[0]], fp[f[1]], fp[f[2]]) / 6;
        sv_check(ft.size() == 2 * kw.size() && fp.size() == p.size(), "facet-count");
        sv_check_close(y, v, 1e-6, "facets-enclose-the-corner");
        for (auto const& f : ft) {   // every edge of a facet is used the other way round by another facet, or lies on the cell
          for (int i = 0; i < 3; i++) { int a = f[i], b = f[(i + 1) % 3], fw = 0, bw = 0; for (auto const& g : ft) for (int j = 0; j < 3; j++) { fw += g[j] == a && g[(j + 1) % 3] == b; bw += g[j] == b && g[(j + 1) % 3] == a; } sv_check(fw == 1 && bw <= 1, "facets-consistently-oriented"); }
        }
      } else if (md == 2) {
        std::vector<std::array<Entity_ID, 2>> ft(1, std::array<Entity_ID, 2>{{7, 7}});
        m.corner_get_facetization(k, &fp, &ft);
        sv_check(ft.size() == 4 && fp.size() == 4, "facet-count");
        double y = 0;
        for (auto const& f : ft) y += (fp[f[0]][0] - nd[0]) * (fp[f[1]][1] - nd[1]) / 2 - (fp[f[0]][1] - nd[1]) * (fp[f[1]][0] - nd[0]) / 2;
        sv_check_close(y, v, 1e-6, "facets-enclose-the-corner");
      } else {
        std::vector<std::array<Entity_ID, 1>> ft(1, std::array<Entity_ID, 1>{{7}});
        m.corner_get_facetization(k, &fp, &ft);
        sv_check(ft.size() == 2 && fp.size() == 2 && ft[0][0] == 0 && ft[1][0] == 1, "facet-count");
        close_pt(fp[0], nd, 1e-9, "facet-points"); close_pt(fp[1], cc, 1e-9, "facet-points");
      }
    }
    sv_check_close(K, V, 1e-5, "corners-add-up-to-cell");
  }
  sv_obs_d("v", m.side_volume(0));
  sv_cover(md == 1 ? "row" : md == 2 ? "polygons" : "polyhedra");
}
