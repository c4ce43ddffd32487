// Point in polyhedron.
//@ sources: geom err
//@ bounds: seven convex reference solids (tetrahedron, cube, prism, pyramid, frustum, octahedron, pentagonal prism) in six affine frames with arbitrary translation (multiples of 1/4 in [-B/4,B/4]); pyramids and prisms with an arbitrary apex / top edge position; query point any multiple of 1/4 in the frame off the planes of the faces; faces listed from any position, forwards or backwards, from any node; B = 64 (thorough 1024)
//@ quick: -DBB=64
//@ thorough: -DBB=1024
#include "shapes.hh"
#include "Geometry.hh"
using namespace JaliGeometry;
static const double M[6][3][3] = {
  {{1,0,0},{0,1,0},{0,0,1}}, {{2,1,0},{-1,2,1},{0,1,3}}, {{0,1,0},{0,0,1},{1,0,0}},
  {{0.5,0.25,0},{-3,1,2},{1,1,4}}, {{-1,0,0},{0,-1,0},{0,0,1}}, {{1,2,3},{0,1,4},{0,0,0.5}}};
extern "C" void sv_main() {
  int fam = sv_concretize(sv_int("family", 0, 1));
  int si = fam ? PYRAMID : sv_concretize(sv_int("shape", 0, NSHAPES - 1));
  if (fam && sv_concretize(sv_bool("prism"))) si = PRISM;
  Shape s = SHAPES[si];
  Frame F;
  int m = fam ? 0 : sv_concretize(sv_int("frame", 0, 5));
  for (int i = 0; i < 3; i++) { F.o[i] = fam ? 0 : sv_grid("o", -BB, BB, 2); for (int j = 0; j < 3; j++) F.e[i][j] = M[m][i][j]; }
  if (fam && si == PYRAMID) for (int i = 0; i < 3; i++) s.v[4][i] = sv_grid("apex", i == 2 ? 1 : -8, 12, 2);
  if (fam && si == PRISM) {  // top triangle moved as a whole
    double t[3]; for (int i = 0; i < 3; i++) t[i] = sv_grid("apex", i == 2 ? 1 : -8, 12, 2);
    for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) s.v[3 + j][i] = s.v[j][i] + t[i];
  }
  int k = sv_concretize(sv_int("first", 0, fam || m ? 1 : s.nf - 1) * (m ? s.nf - 2 : 1));
  bool back = sv_concretize(sv_bool("back"));
  int r = (k + back) % 3;
  double u[3];
  for (int i = 0; i < 3; i++) u[i] = sv_grid("u", -16, 24, 2);
  bool in = true;
  for (int i = 0; i < s.nf; i++) {
    const double *a = s.v[s.f[i][0]], *b = s.v[s.f[i][1]], *d = s.v[s.f[i][2]];
    double x[3], y[3], z[3];
    for (int j = 0; j < 3; j++) { x[j] = b[j] - a[j]; y[j] = d[j] - a[j]; z[j] = u[j] - a[j]; }
    double h = z[0] * (x[1] * y[2] - x[2] * y[1]) + z[1] * (x[2] * y[0] - x[0] * y[2]) + z[2] * (x[0] * y[1] - x[1] * y[0]);
    sv_assume(h != 0);
    in = in & (h < 0);
  }
  PolyDesc d; describe(s, F, k, back, r, false, k, &d);
  bool res = point_in_polyhed(F.at(u), d.cc, d.nf, d.fn, d.fc);
  sv_check(!res | in, "outside-reported-outside");
  sv_check(res | !in, "inside-reported-inside");
  sv_obs_i("r", res);
}
