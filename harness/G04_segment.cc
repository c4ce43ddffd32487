// Polygon regions in two dimensions (line segments).
//@ sources: geom err
//@ engine: --keep-roots
//@ bounds: segments from any point on multiples of 1/4 in [-16,16]^2 along every integer vector of [-B,B]^2, query points the end points, three points inside the segment, and any point on multiples of 1/4 within distance 8; B = 3 (thorough 8)
//@ quick: -DBB=3
//@ thorough: -DBB=8
#include "sv.h"
#include <vector>
#include "PolygonRegion.hh"
using namespace JaliGeometry;
extern "C" void sv_main() {
  double a[2], b[2], q[2];
  for (int i = 0; i < 2; i++) { a[i] = sv_grid("a", -64, 64, 2); b[i] = a[i] + sv_concretize(sv_int("d", -BB, BB)); }
  sv_assume((a[0] != b[0]) | (a[1] != b[1]));
  std::vector<Point> v;
  v.push_back(Point(a[0], a[1])); v.push_back(Point(b[0], b[1]));
  int where = sv_concretize(sv_int("where", 0, 3));
  if (where < 3) { // on the line: start, end, middle
    double c = where == 1 ? 1 : where == 2 ? 0.25 * sv_concretize(sv_int("t", 1, 3)) : 0;
    for (int i = 0; i < 2; i++) q[i] = a[i] + c * (b[i] - a[i]);
  } else for (int i = 0; i < 2; i++) q[i] = a[i] + sv_grid("q", -32, 32, 2);
  PolygonRegion r("r", 3, 2, v);
  bool in = r.inside(Point(q[0], q[1]));
  if (where < 3) sv_check(in, where == 0 ? "start-inside" : where == 1 ? "end-inside" : "on-segment-inside");
  else {
    bool online = (b[0] - a[0]) * (q[1] - a[1]) == (b[1] - a[1]) * (q[0] - a[0]);
    bool bx = ((a[0] <= q[0]) & (q[0] <= b[0])) | ((b[0] <= q[0]) & (q[0] <= a[0]));
    bool by = ((a[1] <= q[1]) & (q[1] <= b[1])) | ((b[1] <= q[1]) & (q[1] <= a[1]));
    sv_check(!in | (online & bx & by), "off-segment-not-inside");
    sv_check(in | !(online & bx & by), "on-segment-inside");
  }
  sv_obs_i("in", in);
}
