// Volume and centroid of polyhedra.
//@ sources: geom err
//@ bounds: affine images of 7 reference solids (tetrahedron, cube, prism, pyramid, frustum, octahedron, pentagonal prism) with arbitrary edge vectors and position on a grid of multiples of 1/4 in [-B/4,B/4]; prismatoids with arbitrary axis-aligned rectangles; cyclic/reversed face orders, all start nodes, both orientations; B = 16 quick, 64 thorough
//@ quick: -DBB=16
//@ thorough: -DBB=64
#include "shapes.hh"
#include "Geometry.hh"
using namespace JaliGeometry;
static void prismatoid() {
  double b[2], p[2], q[2], h = sv_grid("h", 1, BB, 2);
  for (int i = 0; i < 2; i++) { b[i] = sv_grid("b", 1, BB, 2); p[i] = sv_grid("p", -BB, BB, 2); q[i] = sv_grid("q", 1, BB, 2); }
  Frame F; for (int i = 0; i < 3; i++) { F.o[i] = sv_grid("o", -BB, BB, 2); for (int k = 0; k < 3; k++) F.e[i][k] = i == k; }
  // only shapes in which the mean of the vertices sees every face from inside are in scope of the algorithm;
  // for these rectangles it always does
  Shape s = SHAPES[CUBE];
  double lo1[3] = {p[0], p[1], 0}, hi1[3] = {p[0] + q[0], p[1] + q[1], 0};
  double xs[2][2][2] = {{{0, b[0]}, {0, b[1]}}, {{lo1[0], hi1[0]}, {lo1[1], hi1[1]}}};
  static const int ix[4] = {0, 1, 1, 0}, iy[4] = {0, 0, 1, 1};
  for (int t = 0; t < 2; t++) for (int i = 0; i < 4; i++) {
    s.v[4 * t + i][0] = xs[t][0][ix[i]]; s.v[4 * t + i][1] = xs[t][1][iy[i]]; s.v[4 * t + i][2] = t * h;
  }
  PolyDesc d; describe(s, F, 0, false, 0, false, 0, &d);
  double vol; Point c(3);
  polyhed_get_vol_centroid(d.cc, d.nf, d.fn, d.fc, &vol, &c);
  double A0 = b[0] * b[1], A1 = q[0] * q[1], Am = 0.25 * (b[0] + q[0]) * (b[1] + q[1]);
  sv_check_close(6 * vol, h * (A0 + 4 * Am + A1), 1e-8, "prismatoid-volume");
  sv_check_close((c[2] - F.o[2]) * 6 * vol, h * h * (2 * Am + A1), 1e-6, "prismatoid-centroid");
}
extern "C" void sv_main() {
  int si = sv_concretize(sv_int("shape", 0, NSHAPES));
  if (si == NSHAPES) { prismatoid(); return; }
  const Shape& s = SHAPES[si];
  Frame F; F.sym(BB, 2, BB);
  double det = F.det();
  sv_assume(det > 0);
  double rc[3], rv = ref_volume(s, rc);
  int mode = sv_concretize(sv_int("mode", 0, 3));
  int k = 0, r = 0, cv = 0; bool back = false, rev = false;
  if (mode == 1) k = sv_concretize(sv_int("first", 1, s.nf - 1));
  if (mode == 1) cv = sv_concretize(sv_int("vertexshift", 0, 1));
  if (mode == 2) { r = sv_concretize(sv_int("start", 1, 4)); back = true; }
  if (mode == 3) { rev = true; k = sv_concretize(sv_int("first", 0, 1)); }
  PolyDesc d; describe(s, F, k, back, r, rev, cv, &d);
  double vol = -77; Point c(3);
  polyhed_get_vol_centroid(d.cc, d.nf, d.fn, d.fc, &vol, &c);
  sv_check_close(rev ? -vol : vol, rv * det, 1e-8, rev ? "reversed-volume" : "volume");
  if (!rev) sv_check(vol > 0, "volume-positive");
  for (int i = 0; i < 3; i++) sv_check_close(c[i], F.map(rc, i), 1e-6, "centroid");
  sv_obs_d("vol", vol); sv_obs_d("cx", c[0]);
}
