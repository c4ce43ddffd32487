// Area, centroid and normal of polygons.
//@ sources: geom err
//@ bounds: 2D triangles, quadrilaterals and pentagons with arbitrary vertices on a grid of multiples of 1/4 in [-B/4,B/4] (valid: star-shaped about the vertex mean; invalid triangles and quadrilaterals must not get a positive area); 3D affine images (arbitrary edge vectors and origin) of 6 planar reference polygons; all starting vertices, both orientations; B = 16 quick, 64 thorough (quadrilaterals with one vertex at the origin: B = 3 and 6, pentagons: B = 4 and 8)
//@ quick: -DBB=16 -DBQ=3 -DBP=4
//@ thorough: -DBB=64 -DBQ=6 -DBP=8
#include "sv.h"
#include <vector>
#include "Geometry.hh"
using namespace JaliGeometry;
static void plane2d(int n) {
  double x[5], y[5];
  int B = n == 5 ? BP : n == 4 ? BQ : BB;
  for (int i = 0; i < n; i++) { int b = n == 4 && i == 0 ? 0 : B; x[i] = sv_grid("x", -b, b, 2); y[i] = sv_grid("y", -b, b, 2); }
  double sx = 0, sy = 0;
  for (int i = 0; i < n; i++) { sx += x[i]; sy += y[i]; }
  int pos = 0, neg = 0;
  bool all = true;
  double A = 0, mx = 0, my = 0;  // 2 area, 6 moments
  for (int i = 0; i < n; i++) {
    int j = (i + 1) % n;
    double cr = x[i] * y[j] - x[j] * y[i];
    A += cr; mx += cr * (x[i] + x[j]); my += cr * (y[i] + y[j]);
    double sub = (n * x[i] - sx) * (n * y[j] - sy) - (n * x[j] - sx) * (n * y[i] - sy);
    if (n == 5) { all = all & (sub > 0); pos++; }
    else if (sub > 0) pos++; else if (sub < 0) neg++;
  }
  sv_assume(all);
  int k = sv_concretize(sv_int("start", 0, n == 5 ? 1 : n - 1));
  bool rev = sv_bool("rev");
  rev = sv_concretize(rev);
  std::vector<Point> p;
  for (int i = 0; i < n; i++) { int q = (rev ? n - 1 - i : i); q = (q + k) % n; Point t(2); t.set(x[q], y[q]); p.push_back(t); }
  double area = -77; Point c(2), nr(2);
  polygon_get_area_centroid_normal(p, &area, &c, &nr);
  int g = rev ? neg : pos;
  if (g == n || n == 5 || (n == 3 && pos + neg > 0)) {  // valid (or a proper triangle): exact signed area
    sv_check_close(area, rev ? -0.5 * A : 0.5 * A, 1e-9, g == n ? "area-2d" : "area-2d-inverted-triangle");
    sv_check_close(c[0] * 3 * A, mx, 1e-6, "centroid-2d");
    sv_check_close(c[1] * 3 * A, my, 1e-6, "centroid-2d");
    sv_check_close(nr[0], rev ? -0.5 * A : 0.5 * A, 1e-9, "normal-2d");
  } else {
    sv_check(area <= 0, "area-2d-invalid");
    if (pos + neg == n && (pos == 0 || neg == 0)) {  // properly inverted polygon
      sv_check_close(area, rev ? -0.5 * A : 0.5 * A, 1e-9, "area-2d-inverted");
      sv_check_close(c[0] * 3 * A, mx, 1e-6, "centroid-2d");
      sv_check_close(c[1] * 3 * A, my, 1e-6, "centroid-2d");
    }
  }
  sv_obs_d("area", area);
}
struct Poly2 { int n; double v[6][2]; };
static const Poly2 P2[] = {
  {3, {{0,0},{1,0},{0,1}}}, {4, {{0,0},{1,0},{1,1},{0,1}}}, {4, {{0,0},{4,0},{3,2},{1,2}}},
  {5, {{0,0},{2,0},{3,2},{1,3},{-1,2}}}, {5, {{0,0},{4,0},{4,4},{2,3},{0,4}}}, {6, {{1,0},{2,0},{3,1},{2,2},{1,2},{0,1}}},
};
static void space3d() {
  int s = sv_concretize(sv_int("poly", 0, 5));
  const Poly2& P = P2[s];
  double o[3], a[3], b[3];
  for (int i = 0; i < 3; i++) { a[i] = sv_grid("a", -BB, BB, 2); b[i] = sv_grid("b", -BB, BB, 2); o[i] = sv_grid("o", -BB, BB, 2); }
  double cr[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
  double n2 = cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2];
  sv_assume(n2 > 0);
  double A = 0, m[2] = {0, 0};
  for (int i = 0; i < P.n; i++) {
    const double *u = P.v[i], *w = P.v[(i + 1) % P.n];
    double t = u[0] * w[1] - w[0] * u[1];
    A += t / 2; m[0] += t * (u[0] + w[0]) / 6; m[1] += t * (u[1] + w[1]) / 6;
  }
  m[0] /= A; m[1] /= A;
  int k = sv_concretize(sv_int("start", 0, P.n - 1));
  bool rev = sv_concretize(sv_bool("rev"));
  std::vector<Point> p;
  for (int i = 0; i < P.n; i++) {
    int q = rev ? P.n - 1 - i : i; q = (q + k) % P.n;
    const double* u = P.v[q];
    p.push_back(Point(o[0] + u[0] * a[0] + u[1] * b[0], o[1] + u[0] * a[1] + u[1] * b[1], o[2] + u[0] * a[2] + u[1] * b[2]));
  }
  double area = -77; Point c(3), nr(3);
  polygon_get_area_centroid_normal(p, &area, &c, &nr);
  sv_check(area > 0, "area-3d-positive");
  sv_check_close(area * area, A * A * n2, 1e-5, "area-3d");
  for (int i = 0; i < 3; i++) {
    sv_check_close(nr[i], (rev ? -A : A) * cr[i], 1e-8, "normal-3d");
    sv_check_close(c[i], o[i] + m[0] * a[i] + m[1] * b[i], 1e-6, "centroid-3d");
  }
  sv_obs_d("area", area);
}
extern "C" void sv_main() {
  int kind = sv_concretize(sv_int("kind", 3, 6));
  if (kind <= 5) plane2d(kind); else space3d();
}
