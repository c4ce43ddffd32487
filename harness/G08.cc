// 1D measures follow the selected curvilinear geometry.
//@ sources: geom err
//@ bounds: end points arbitrary multiples of 1/16 in [0,N/16] (Cartesian: [-N/16,N/16]), all three geometry types; N = 255 quick, 1024 thorough
//@ quick: -DNMAX=255
//@ thorough: -DNMAX=1024
#include "sv.h"
#include <cmath>
#include <vector>
#include "Geometry.hh"
using namespace JaliGeometry;
static Point p1(double x) { Point p(1); p.set(x); return p; }
extern "C" void sv_main() {
  int g = sv_concretize(sv_int("geom", 0, 2));
  Geom_type t = g == 0 ? Geom_type::CARTESIAN : g == 1 ? Geom_type::CYLINDRICAL : Geom_type::SPHERICAL;
  int lo = g == 0 ? -NMAX : 0;
  double x[3];
  for (int i = 0; i < 3; i++) x[i] = sv_grid("x", lo, NMAX, 4);
  sv_assume(x[0] < x[1]); sv_assume(x[1] < x[2]);
  double v[3] = {-7, -7, -7};  // 01, 12, 02
  Point c[3] = {p1(-1e9), p1(-1e9), p1(-1e9)};
  int e[3][2] = {{0, 1}, {1, 2}, {0, 2}};
  for (int k = 0; k < 3; k++) {
    std::vector<Point> s;
    double a = x[e[k][0]], b = x[e[k][1]];
    s.push_back(p1(a)); s.push_back(p1(b));
    segment_get_vol_centroid(s, t, &v[k], &c[k]);
    double w = g == 0 ? b - a : g == 1 ? M_PI * (b * b - a * a) : 4.0 * M_PI * (b * b * b - a * a * a) / 3.0;
    sv_check_close(v[k], w, 1e-6, g == 0 ? "volume-cartesian" : g == 1 ? "volume-cylindrical" : "volume-spherical");
    sv_check(v[k] > 0.0, "volume-positive");
    sv_check(c[k].dim() == 1 && c[k][0] > a && c[k][0] < b, "centroid-inside");
    if (g == 0) sv_check(c[k][0] == 0.5 * (a + b), "centroid-cartesian");
    double ar = -7;
    std::vector<Point> f; f.push_back(p1(a));
    face1d_get_area(f, t, &ar);
    double wa = g == 0 ? 1.0 : g == 1 ? 2.0 * M_PI * a : 4.0 * M_PI * (a * a);
    sv_check_close(ar, wa, 1e-8, g == 0 ? "area-cartesian" : g == 1 ? "area-cylindrical" : "area-spherical");
    sv_obs_d("v", v[k]); sv_obs_d("c", c[k][0]); sv_obs_d("a", ar);
  }
  sv_check_close(v[0] + v[1], v[2], 1e-6, "additive");
}
