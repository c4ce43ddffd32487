// Point in polygon.
//@ sources: geom err
//@ bounds: all triangles (B = 3, thorough 8) and quadrilaterals (B = 2, thorough 4; star-shaped from one vertex, non-convex ones included) with vertices on the integer grid [-B,B]^2, query point anywhere on that grid off the boundary, listed in either direction
//@ quick: -DB3=3 -DB4=2
//@ thorough: -DB3=8 -DB4=4
#include "sv.h"
#include <vector>
#include "Geometry.hh"
using namespace JaliGeometry;
extern "C" void sv_main() {
  int n = sv_concretize(sv_int("n", 3, 4));
  int B = n == 3 ? B3 : B4;
  double x[6], y[6];
  for (int i = 0; i <= n; i++) { x[i] = sv_grid("x", -B, B, 0); y[i] = sv_grid("y", -B, B, 0); }
  double px = x[n], py = y[n];
  bool valid = true;
  for (int i = 1; i + 1 < n; i++)
    valid = valid & ((x[i] - x[0]) * (y[i + 1] - y[0]) - (x[i + 1] - x[0]) * (y[i] - y[0]) > 0);
  sv_assume(valid);
  double c[5], f[5];  // side of the point relative to edges and to the fan diagonals
  for (int i = 0; i < n; i++) {
    int j = (i + 1) % n;
    c[i] = (x[j] - x[i]) * (py - y[i]) - (px - x[i]) * (y[j] - y[i]);
    f[i] = (x[i] - x[0]) * (py - y[0]) - (px - x[0]) * (y[i] - y[0]);  // diagonal 0-i
  }
  bool in = false;
  for (int i = 1; i + 1 < n; i++) in = in | ((f[i] >= 0) & (c[i] >= 0) & (f[i + 1] <= 0));
  for (int i = 0; i < n; i++) {
    int j = (i + 1) % n;
    bool bx = ((x[i] <= px) & (px <= x[j])) | ((x[j] <= px) & (px <= x[i]));
    bool by = ((y[i] <= py) & (py <= y[j])) | ((y[j] <= py) & (py <= y[i]));
    sv_assume(!((c[i] == 0) & by & ((y[i] != y[j]) | bx)));  // not on this edge
  }
  int k = 0;
  bool rev = sv_concretize(sv_bool("rev"));
  std::vector<Point> v;
  for (int i = 0; i < n; i++) { int q = rev ? n - 1 - i : i; q = (q + k) % n; v.push_back(Point(x[q], y[q])); }
  bool r = point_in_polygon(Point(px, py), v);
  sv_check(!r | in, "outside-reported-outside");
  sv_check(r | !in, "inside-reported-inside");
  sv_obs_i("r", r);
}
