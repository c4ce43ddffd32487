// Cell, face and edge measures equal those of the shape spanned by the nodes.
//@ sources: mesh geom err
//@ bounds: meshes of 1-3 cells (rows in three geometries, convex and reflex polygons, planar surface in 3D, hexahedra, prism, pyramid, tetrahedra) in 3 affine frames with arbitrary stretch (1/4..4) and translation (multiples of 1/4 in [-8,8]); faces and edges stored in either orientation, faces of a cell in rotated order (8 patterns)
//@ bounds_quick: orientation patterns 0, 3 and 5
//@ bounds_thorough: 8 patterns
//@ quick: -DNB=3
//@ thorough: -DNB=8
#include "sv.h"
#include "tmesh.hh"
// volume and first moment of a polyhedron from its outward faces
static void solid(Topo const& t, int c, double& V, double M[3]) {
  V = 0; M[0] = M[1] = M[2] = 0;
  std::vector<double> const& o = t.xyz[t.cn[c][0]];
  for (IL const& f : t.cf[c]) for (size_t j = 1; j + 1 < f.size(); j++) {
    double a[3], b[3], d[3];
    for (int k = 0; k < 3; k++) { a[k] = t.xyz[f[0]][k] - o[k]; b[k] = t.xyz[f[j]][k] - o[k]; d[k] = t.xyz[f[j + 1]][k] - o[k]; }
    double w = (a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) + a[2] * (b[0] * d[1] - b[1] * d[0])) / 6;
    V += w;
    for (int k = 0; k < 3; k++) M[k] += w * (a[k] + b[k] + d[k]) / 4;
  }
  for (int k = 0; k < 3; k++) M[k] = M[k] / V + o[k];
}
// vector area (3 components, planar polygons use the third) and centroid of a planar polygon
static void polygon(Topo const& t, IL const& f, double N[3], double M[3]) {
  double q[3][3] = {{0}};
  N[0] = N[1] = N[2] = 0;
  auto g = [&](int n, int k) { return k < t.sd ? t.xyz[n][k] - t.xyz[f[0]][k] : 0.0; };
  double ref[3] = {0, 0, 0}, A = 0, S[3] = {0, 0, 0};
  for (size_t j = 1; j + 1 < f.size(); j++) {
    double b[3], d[3], cr[3];
    for (int k = 0; k < 3; k++) { b[k] = g(f[j], k); d[k] = g(f[j + 1], k); }
    for (int k = 0; k < 3; k++) { int u = (k + 1) % 3, v = (k + 2) % 3; cr[k] = (b[u] * d[v] - b[v] * d[u]) / 2; N[k] += cr[k]; if (j == 1) ref[k] = cr[k]; }
    double w = cr[0] * ref[0] + cr[1] * ref[1] + cr[2] * ref[2];   // signed area times |ref|
    A += w;
    for (int k = 0; k < 3; k++) S[k] += w * (b[k] + d[k]) / 3;
  }
  for (int k = 0; k < t.sd; k++) M[k] = S[k] / A + t.xyz[f[0]][k];
  (void)q;
}
extern "C" void sv_main() {
  int what = sv_concretize(sv_int("mesh", 0, 9));
#if NB == 8
  int bits = sv_concretize(sv_int("orient", 0, 7));
#else
  int ob = sv_concretize(sv_int("orient", 0, 2)), bits = ob == 0 ? 0 : ob == 1 ? 3 : 5;
#endif
  int gm = what == 0 ? 0 : what >= 8 ? what - 7 : 0;
  Topo t = pick(what >= 8 ? 0 : what);
  int fr = t.sd == 1 ? 0 : sv_concretize(sv_int("frame", 0, 2));
  place(t, fr, 32, true);
  MeshOpts o; orient(o, bits);
  o.edges = true;
  o.geom = gm == 0 ? JaliGeometry::Geom_type::CARTESIAN : gm == 1 ? JaliGeometry::Geom_type::CYLINDRICAL : JaliGeometry::Geom_type::SPHERICAL;
  TestMesh m(t, o);
  for (int c = 0; c < (int)t.cn.size(); c++) {
    double v = m.cell_volume(c), V, M[3];
    Point ce = m.cell_centroid(c);
    sv_check(v > 0, "positive-volume");
    sv_check(ce.dim() == t.sd, "centroid-dimension");
    if (t.md == 3) { solid(t, c, V, M); sv_check_close(v, V, 1e-6, "cell-volume"); }
    else if (t.md == 2) { double N[3]; polygon(t, t.cn[c], N, M); sv_check_close(v * v, N[0] * N[0] + N[1] * N[1] + N[2] * N[2], 1e-5, "cell-area"); }
    else {
      double a = t.xyz[c][0], b = t.xyz[c + 1][0];
      V = gm == 0 ? b - a : gm == 1 ? M_PI * (b * b - a * a) : 4.0 / 3 * M_PI * (b * b * b - a * a * a);
      sv_check_close(v, V, 1e-5, "cell-length");
      if (gm == 0) M[0] = (a + b) / 2; else { sv_check((ce[0] > a) & (ce[0] < b), "shell-centroid-inside"); M[0] = ce[0]; }
    }
    for (int k = 0; k < t.sd; k++) sv_check_close(ce[k], M[k], 1e-6, "cell-centroid");
    sv_check_close(m.cell_volume(c, true), v, 1e-9, "recomputed-volume");
    close_pt(m.cell_centroid(c, true), ce, 1e-9, "recomputed-centroid");
  }
  for (int f = 0; f < (int)m.fn.size(); f++) {
    double a = m.face_area(f);
    Point fc = m.face_centroid(f);
    if (t.md == 3) {
      double N[3], M[3]; polygon(t, m.fn[f], N, M);
      sv_check_close(a * a, N[0] * N[0] + N[1] * N[1] + N[2] * N[2], 1e-5, "face-area");
      for (int k = 0; k < 3; k++) sv_check_close(fc[k], M[k], 1e-6, "face-centroid");
    } else if (t.md == 2) {
      double l = 0;
      for (int k = 0; k < t.sd; k++) { double d = t.xyz[m.fn[f][1]][k] - t.xyz[m.fn[f][0]][k]; l += d * d; sv_check_close(fc[k], (t.xyz[m.fn[f][1]][k] + t.xyz[m.fn[f][0]][k]) / 2, 1e-9, "face-centroid"); }
      sv_check((a > 0), "positive-face-length");
      sv_check_close(a * a, l, 1e-6, "face-length");
    } else {
      double r = t.xyz[m.fn[f][0]][0];
      sv_check_close(a, gm == 0 ? 1.0 : gm == 1 ? 2 * M_PI * r : 4 * M_PI * r * r, 1e-5, "face-area-1d");
      sv_check_close(fc[0], r, 1e-9, "face-centroid-1d");
    }
    sv_check_close(m.face_area(f, true), a, 1e-9, "recomputed-face-area");
    close_pt(m.face_centroid(f, true), fc, 1e-9, "recomputed-face-centroid");
  }
  for (int e = 0; e < (int)m.en.size(); e++) {
    int a = m.en[e][0], b = m.en[e][1], od = 77;
    Point v = m.edge_vector(e), c = m.edge_centroid(e);
    double l = m.edge_length(e), l2 = 0;
    for (int k = 0; k < t.sd; k++) {
      double d = t.xyz[b][k] - t.xyz[a][k];
      l2 += d * d;
      sv_check_close(v[k], d, 1e-9, "edge-vector");
      sv_check_close(c[k], (t.xyz[a][k] + t.xyz[b][k]) / 2, 1e-9, "edge-centroid");
    }
    sv_check(l >= 0, "edge-length-positive");
    sv_check_close(l * l, l2, 1e-6, "edge-length");
    sv_check_close(m.edge_length(e, true), l, 1e-9, "recomputed-edge-length");
    close_pt(m.edge_vector(e, true), v, 1e-9, "recomputed-edge-vector");
    if (t.md > 1) for (int rc = 0; rc < 2; rc++) {
      Point va = m.edge_vector(e, rc, a, &od);
      sv_check(od == 1, "edge-orientation");
      close_pt(va, v, 1e-9, "edge-vector-from-its-first-node");
      Point vb = m.edge_vector(e, rc, b, &od);
      sv_check(od == -1, "edge-orientation");
      for (int k = 0; k < t.sd; k++) sv_check_close(vb[k], -v[k], 1e-9, "edge-vector-from-its-second-node");
    }
  }
  sv_obs_d("v", m.cell_volume(0));
  sv_cover(t.md == 1 ? "row" : t.md == 2 ? "polygons" : "polyhedra");
}
