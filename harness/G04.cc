// Box, plane and point regions.
//@ sources: geom err
//@ bounds: dimensions 1 to 3; box corners (in any order, also degenerate boxes) and points any multiple of 1/16 in [-N/16,N/16]; plane points and normals likewise in [-M/16,M/16]; query points on the same grid, one step of 2^-20 off the grid for boxes and points; query dimension equal to or different from the region's; N = 4096, M = 256 (thorough 65536, 4096)
//@ quick: -DNB=4096 -DNP=256
//@ thorough: -DNB=65536 -DNP=4096
#include "sv.h"
#include <vector>
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
using namespace JaliGeometry;
static Point mk(int d, double const* v) {
  if (d == 2) return Point(v[0], v[1]);
  if (d == 3) return Point(v[0], v[1], v[2]);
  Point p(1); p.set(v[0]); return p;
}
static void wrongdim(const Region& r, int d) {
  int q = sv_concretize(sv_int("qdim", 1, 3));
  double z[3] = {0, 0, 0};
  bool threw = false;
  try { r.inside(mk(q, z)); } catch (Errors::Message&) { threw = true; }
  sv_check(threw == (q != d), "wrong-dimension-refused");
}
extern "C" void sv_main() {
  int d = sv_concretize(sv_int("d", 1, 3));
  int kind = sv_concretize(sv_int("kind", 0, 2));
  bool wd = sv_concretize(sv_bool("wrongdim"));
  double a[3], b[3], q[3];
  if (kind == 1) {
    for (int i = 0; i < d; i++) { a[i] = sv_grid("p", -NP, NP, 4); b[i] = sv_grid("n", -NP, NP, 4); q[i] = sv_grid("q", -NP, NP, 4); }
    bool nz = false;
    for (int i = 0; i < d; i++) nz = nz | (b[i] != 0);
    sv_assume(nz);
    PlaneRegion r("r", 3, mk(d, a), mk(d, b));
    sv_check(r.dimension() == (unsigned)d - 1, "plane-dimension");
    if (wd) { wrongdim(r, d); return; }
    double s = 0;
    for (int i = 0; i < d; i++) s = s + b[i] * (q[i] - a[i]);
    bool in = r.inside(mk(d, q));
    sv_check(!in | (s == 0), "off-plane-not-inside");
    sv_check(in | (s != 0), "on-plane-inside");
    sv_obs_i("in", in);
    return;
  }
  for (int i = 0; i < d; i++) { a[i] = sv_grid("p", -NB, NB, 4); b[i] = sv_grid("r", -NB, NB, 4); q[i] = sv_grid("q", -NB, NB, 4); }
  if (kind == 2) {
    PointRegion r("r", 3, mk(d, a));
    sv_check(r.dimension() == 0, "point-dimension");
    if (wd) { wrongdim(r, d); return; }
    bool same = true;
    int off = sv_int("off", -1, 1), dir = sv_concretize(sv_int("dir", 0, d - 1));
    q[dir] = q[dir] + off * (1.0 / 1048576);
    for (int i = 0; i < d; i++) same = same & (q[i] == a[i]);
    bool in = r.inside(mk(d, q));
    sv_check(!in | same, "other-point-not-inside");
    sv_check(in | !same, "point-inside");
    sv_obs_i("in", in);
    return;
  }
  BoxRegion r("r", 3, mk(d, a), mk(d, b));
  if (wd) { wrongdim(r, d); return; }
  unsigned deg = 0;
  for (int i = 0; i < d; i++) deg += (a[i] == b[i]);
  sv_check(r.dimension() == d - deg, "box-dimension");
  int nd = -5;
  bool isd = r.is_degenerate(&nd);
  sv_check(isd == (deg > 0) && nd == (int)deg, "box-degenerate");
  int off = sv_int("off", -1, 1), dir = sv_concretize(sv_int("dir", 0, d - 1));
  q[dir] = q[dir] + off * (1.0 / 1048576);
  bool want = true;
  for (int i = 0; i < d; i++) want = want & (((a[i] <= q[i]) & (q[i] <= b[i])) | ((b[i] <= q[i]) & (q[i] <= a[i])));
  bool in = r.inside(mk(d, q));
  sv_check(!in | want, "outside-box-not-inside");
  sv_check(in | !want, "in-box-inside");
  Point lo, hi; r.corners(&lo, &hi);
  for (int i = 0; i < d; i++) sv_check(lo[i] == a[i] && hi[i] == b[i], "box-corners");
  sv_obs_i("in", in);
}
