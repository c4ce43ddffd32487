// Polygon regions in three dimensions.
//@ sources: geom err
//@ engine: --keep-roots
//@ bounds: six reference polygons (convex, reflex, with a vertex in the middle of an edge) in 14 orientations in space covering every sign pattern and every dominant direction of the normal, arbitrary translation on multiples of 1/4, listed in two ways (from the first vertex forwards, from the middle one backwards); query point any combination of multiples of 1/2 along the edges of the plane and any multiple of 1/4 of the normal
//@ quick: -DBB=64
//@ thorough: -DBB=512
#include "sv.h"
#include <vector>
#include "PolygonRegion.hh"
using namespace JaliGeometry;
struct Poly { int n; double v[10][2]; };
static const Poly P[] = {
  {5, {{0,0},{2,0},{3,2},{1,3},{-1,2}}},
  {6, {{0,0},{4,0},{4,2},{2,2},{2,4},{0,4}}},
  {4, {{0,0},{4,2},{0,4},{1,2}}},
  {5, {{0,0},{2,0},{4,0},{4,4},{0,4}}},
  {3, {{0,0},{4,1},{1,3}}},
  {8, {{0,0},{4,0},{4,4},{3,4},{3,1},{1,1},{1,4},{0,4}}},
};
static const double E[14][2][3] = {
  {{1,0,0},{0,1,0}}, {{0,1,0},{1,0,0}}, {{0,1,0},{0,0,1}}, {{0,0,1},{0,1,0}}, {{0,0,1},{1,0,0}}, {{1,0,0},{0,0,1}},
  {{1,0,-2},{0,1,-1}}, {{0,1,-1},{1,0,-2}}, {{1,2,0},{0,1,1}}, {{0,1,1},{1,2,0}},
  {{1,1,0},{1,-1,3}}, {{1,-1,3},{1,1,0}}, {{1,0,3},{0,1,-1}}, {{0,2,1},{1,1,1}}};
extern "C" void sv_main() {
  int si = sv_concretize(sv_int("shape", 0, 5));
  const Poly& s = P[si];
  int m = sv_concretize(sv_int("orientation", 0, si < 1 ? 13 : 2));
  if (si >= 1) m = (m * 5 + si) % 14;
  int k = sv_concretize(sv_int("start", 0, 1));
  bool rev = k; k *= s.n / 2;
  double o[3]; for (int i = 0; i < 3; i++) o[i] = sv_grid("o", -BB, BB, 2);
  const double *a = E[m][0], *b = E[m][1];
  double nr[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
  double u = sv_grid("u", -3, 9, 1), w = sv_grid("w", -2, 9, 1), h = sv_grid("h", -4, 4, 2);
  bool in = false, bd = false;
  for (int i = 0; i < s.n; i++) {
    const double *x = s.v[i], *y = s.v[(i + 1) % s.n];
    double c = (y[0] - x[0]) * (w - x[1]) - (u - x[0]) * (y[1] - x[1]);
    double lo0 = x[0] < y[0] ? x[0] : y[0], hi0 = x[0] < y[0] ? y[0] : x[0], lo1 = x[1] < y[1] ? x[1] : y[1], hi1 = x[1] < y[1] ? y[1] : x[1];
    bd = bd | ((c == 0) & (u >= lo0) & (u <= hi0) & (w >= lo1) & (w <= hi1));
    if (x[1] < y[1]) in = in ^ ((x[1] <= w) & (w < y[1]) & (c > 0));
    else if (y[1] < x[1]) in = in ^ ((y[1] <= w) & (w < x[1]) & (c < 0));
  }
  std::vector<Point> v;
  for (int i = 0; i < s.n; i++) {
    int q = rev ? s.n - 1 - i : i; q = (q + k) % s.n;
    const double* x = s.v[q];
    v.push_back(Point(o[0] + x[0] * a[0] + x[1] * b[0], o[1] + x[0] * a[1] + x[1] * b[1], o[2] + x[0] * a[2] + x[1] * b[2]));
  }
  PolygonRegion r("r", 3, s.n, v);
  double q[3]; for (int i = 0; i < 3; i++) q[i] = o[i] + u * a[i] + w * b[i] + h * nr[i];
  bool res = r.inside(Point(q[0], q[1], q[2]));
  sv_check(!res | (h == 0), "off-plane-not-inside");
  sv_check(!res | in | bd, "outside-not-inside");
  sv_check(res | !in | bd | (h != 0), "inside-reported-inside");
  sv_check(res | !bd | (h != 0), "boundary-inside");
  sv_obs_i("r", res);
}
