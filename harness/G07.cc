// Point arithmetic satisfies vector-space laws in every dimension.
//@ sources: geom err
//@ bounds: every coordinate an arbitrary multiple of 1/16 in [-512,512], scalars likewise; dimensions 1..3; distinct operands and the object itself (or one of its coordinates) as operand
#include "sv.h"
#include <cmath>
#include <vector>
#include "Point.hh"
using JaliGeometry::Point;

static double num(const char* n) { return sv_grid(n, -8192, 8192, 4); }
static Point mk(int d, double const* v) {
  if (d == 2) return Point(v[0], v[1]);
  if (d == 3) return Point(v[0], v[1], v[2]);
  Point p(1); p.set(v[0]); return p;
}
extern "C" void sv_main() {
  int d = sv_concretize(sv_int("d", 1, 3));
  double a[3] = {0, 0, 0}, b[3] = {0, 0, 0}, r = num("r");
  for (int i = 0; i < d; i++) { a[i] = num("a"); b[i] = num("b"); }
  Point p = mk(d, a), q = mk(d, b);
  sv_check(p.dim() == d && q.dim() == d && p.is_valid(), "dimension");
  for (int i = 0; i < d; i++) sv_check(p[i] == a[i] && q[i] == b[i], "construction");
  sv_check(p.x() == a[0] && p.y() == (d > 1 ? a[1] : 0.0) && p.z() == (d > 2 ? a[2] : 0.0), "xyz-accessors");
  // rubbish beyond the dimension must not matter
  if (sv_concretize(sv_bool("rubbish"))) for (int i = d; i < 3; i++) { p[i] = 1e30 + i; q[i] = -1e29; }
  int op = sv_concretize(sv_int("op", 0, 13));
  double beyond[3] = {p[0], p[1], p[2]};
  Point c(p);
  double bc[3] = {c[0], c[1], c[2]};
  (void)beyond; (void)bc;
  switch (op) {
    case 0: { Point s = p + q; sv_check(s.dim() == d, "dim"); for (int i = 0; i < d; i++) sv_check(s[i] == a[i] + b[i], "sum"); Point t = q + p; for (int i = 0; i < d; i++) sv_check(s[i] == t[i], "commute"); c += q; sv_check(c.dim() == d, "dim"); for (int i = 0; i < d; i++) sv_check(c[i] == s[i], "plus-assign"); break; }
    case 1: { Point s = p - q; sv_check(s.dim() == d, "dim"); for (int i = 0; i < d; i++) sv_check(s[i] == a[i] - b[i], "difference"); c -= q; for (int i = 0; i < d; i++) sv_check(c[i] == s[i], "minus-assign"); break; }
    case 2: { Point s = -p; sv_check(s.dim() == d, "dim"); for (int i = 0; i < d; i++) sv_check(s[i] == -a[i], "negation"); break; }
    case 3: { Point s = r * p, t = p * r; sv_check(s.dim() == d && t.dim() == d, "dim"); for (int i = 0; i < d; i++) { sv_check(s[i] == r * a[i], "scaling"); sv_check(t[i] == s[i], "scaling-sides"); } c *= r; for (int i = 0; i < d; i++) sv_check(c[i] == s[i], "times-assign"); break; }
    case 4: { sv_assume(r >= 0.0625 || r <= -0.0625); Point s = p / r; sv_check(s.dim() == d, "dim"); c /= r; for (int i = 0; i < d; i++) { sv_check_close(s[i] * r, a[i], 1e-7, "division"); sv_check_close(c[i], s[i], 1e-7, "divide-assign"); } break; }
    case 5: { double e = 0; for (int i = 0; i < d; i++) e = e + a[i] * b[i]; sv_check(p * q == e, "dot"); sv_check(q * p == e, "dot-symmetric"); break; }
    case 6: { Point x = p ^ q, y = q ^ p; sv_check(x.dim() == d, "dim");
      if (d == 3) {
        sv_check(x[0] == a[1] * b[2] - a[2] * b[1] && x[1] == a[2] * b[0] - a[0] * b[2] && x[2] == a[0] * b[1] - a[1] * b[0], "cross");
        sv_check_close(x * p, 0.0, 1e-6, "cross-perpendicular"); sv_check_close(x * q, 0.0, 1e-6, "cross-perpendicular");
        for (int i = 0; i < 3; i++) sv_check(x[i] == -y[i], "cross-anticommutes");
      } else if (d == 2) { sv_check(x[0] == a[0] * b[1] - a[1] * b[0] && x[1] == 0.0, "cross-2d"); sv_check(x[0] == -y[0], "cross-anticommutes"); }
      else sv_check(x[0] == 0.0, "cross-1d");
      break; }
    case 7: { double e = 0; for (int i = 0; i < d; i++) e = e + a[i] * a[i]; sv_check(JaliGeometry::L22(p) == e, "squared-norm"); double n = JaliGeometry::norm(p); sv_check(n >= 0.0, "norm-sign"); sv_check_close(n * n, e, 1e-6, "norm"); sv_obs_d("n", n); break; }
    case 8: { c.set(r); sv_check(c.dim() == d, "dim"); for (int i = 0; i < d; i++) sv_check(c[i] == r, "set-value"); break; }
    case 9: { Point z; z.set(p); sv_check(z.dim() == d, "dim"); for (int i = 0; i < d; i++) sv_check(z[i] == a[i], "set-point"); Point y; y = p; sv_check(y.dim() == d, "dim"); for (int i = 0; i < d; i++) sv_check(y[i] == a[i], "assign"); break; }
    case 10: { std::vector<double> v(b, b + d); c.set(v.data()); for (int i = 0; i < d; i++) sv_check(c[i] == b[i], "set-array"); Point z; z.set(d, v.data()); sv_check(z.dim() == d, "dim"); for (int i = 0; i < d; i++) sv_check(z[i] == b[i], "set-array-dim"); break; }
    case 11: { Point z; z.set(a[0], b[0]); sv_check(z.dim() == 2 && z[0] == a[0] && z[1] == b[0], "set-2"); z.set(a[0], b[0], r); sv_check(z.dim() == 3 && z[0] == a[0] && z[1] == b[0] && z[2] == r, "set-3"); break; }
    case 12: { Point z(d); sv_check(z.dim() == d, "dim"); for (int i = 0; i < d; i++) sv_check(z[i] == 0.0, "zero"); Point e; sv_check(e.dim() == 0 && !e.is_valid(), "empty"); break; }
  }
  // an operand may be the object itself, or a scalar one of its coordinates
  if (op == 13) {
    int how = sv_concretize(sv_int("how", 0, 6));
    int k = sv_concretize(sv_int("k", 0, d - 1));
    double e[3] = {0, 0, 0};
    if (how == 0) { c += c; for (int i = 0; i < d; i++) e[i] = 2 * a[i]; }
    else if (how == 1) c -= c;
    else if (how == 2) { c = *&c; for (int i = 0; i < d; i++) e[i] = a[i]; }
    else if (how == 3) { c.set(c); for (int i = 0; i < d; i++) e[i] = a[i]; }
    else if (how == 4) { c *= c[k]; for (int i = 0; i < d; i++) e[i] = a[i] * a[k]; }
    else if (how == 5) { c.set(c[k]); for (int i = 0; i < d; i++) e[i] = a[k]; }
    else { sv_assume((a[k] >= 0.0625) | (a[k] <= -0.0625)); c /= c[k]; Point s = p / p[k]; for (int i = 0; i < d; i++) { sv_check_close(c[i], s[i], 1e-7, "self-division"); e[i] = c[i]; } }
    sv_check(c.dim() == d, "dim");
    for (int i = 0; i < d; i++) sv_check(c[i] == e[i], "self-operand");
  }
  // operands unchanged
  for (int i = 0; i < d; i++) sv_check(p[i] == a[i] && q[i] == b[i], "operands-unchanged");
  sv_check(p.dim() == d && q.dim() == d, "operands-unchanged");
  for (int i = d; i < 3; i++) sv_check(p[i] == beyond[i], "beyond-dimension-unchanged");
  for (int i = 0; i < d; i++) sv_obs_d("c", c[i]);
}
