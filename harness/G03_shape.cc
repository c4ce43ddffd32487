// Point in polygon: reference polygons (also non-convex) in a symbolic affine frame.
//@ sources: geom err
//@ bounds: five reference polygons (convex pentagon, L, U, arrow, hexagon) in every affine frame with integer basis vectors in [-E,E]^2 and positive determinant, any query point off the boundary on the grid of multiples of 1/2 of the frame over [-1,5]^2, listed from two different vertices in either direction; E = 2 (thorough 5)
//@ quick: -DE=2
//@ thorough: -DE=5
#include "sv.h"
#include <vector>
#include "Geometry.hh"
using namespace JaliGeometry;
struct Poly { int n; double v[10][2]; };
static const Poly P[] = {
  {5, {{0,0},{2,0},{3,2},{1,3},{-1,2}}},
  {6, {{0,0},{4,0},{4,2},{2,2},{2,4},{0,4}}},
  {8, {{0,0},{4,0},{4,4},{3,4},{3,1},{1,1},{1,4},{0,4}}},
  {4, {{0,0},{4,2},{0,4},{1,2}}},
  {6, {{1,0},{3,0},{4,2},{3,4},{1,4},{0,2}}},
};
extern "C" void sv_main() {
  const Poly& s = P[sv_concretize(sv_int("shape", 0, 4))];
  int k = sv_concretize(sv_int("start", 0, 1) * (s.n / 2));
  bool rev = sv_concretize(sv_bool("rev"));
  double e[2][2];
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) e[i][j] = sv_grid("e", -E, E, 0);
  sv_assume(e[0][0] * e[1][1] - e[0][1] * e[1][0] > 0);
  double u = sv_grid("u", -2, 10, 1), w = sv_grid("w", -2, 10, 1);
  // truth in the reference frame (crossing number, exact)
  bool in = false;
  for (int i = 0; i < s.n; i++) {
    const double *a = s.v[i], *b = s.v[(i + 1) % s.n];
    double c = (b[0] - a[0]) * (w - a[1]) - (u - a[0]) * (b[1] - a[1]);
    double lo0 = a[0] < b[0] ? a[0] : b[0], hi0 = a[0] < b[0] ? b[0] : a[0], lo1 = a[1] < b[1] ? a[1] : b[1], hi1 = a[1] < b[1] ? b[1] : a[1];
    sv_assume(!((c == 0) & (u >= lo0) & (u <= hi0) & (w >= lo1) & (w <= hi1)));
    if (a[1] < b[1]) in = in ^ ((a[1] <= w) & (w < b[1]) & (c > 0));
    else if (b[1] < a[1]) in = in ^ ((b[1] <= w) & (w < a[1]) & (c < 0));
  }
  std::vector<Point> v;
  for (int i = 0; i < s.n; i++) {
    int q = rev ? s.n - 1 - i : i; q = (q + k) % s.n;
    v.push_back(Point(s.v[q][0] * e[0][0] + s.v[q][1] * e[1][0], s.v[q][0] * e[0][1] + s.v[q][1] * e[1][1]));
  }
  bool r = point_in_polygon(Point(u * e[0][0] + w * e[1][0], u * e[0][1] + w * e[1][1]), v);
  sv_check(!r | in, "outside-reported-outside");
  sv_check(r | !in, "inside-reported-inside");
  sv_obs_i("r", r);
}
