// Concrete reference shapes and their placement by a symbolic affine map.
#pragma once
#include "sv.h"
#include <vector>
#include "Point.hh"
using JaliGeometry::Point;
struct Shape {
  const char* name;
  int nv; double v[10][3];
  int nf; int fn[8]; int f[8][6];   // outward, counter-clockwise
};
static const Shape SHAPES[] = {
  {"cube", 8, {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}, 6, {4,4,4,4,4,4},
   {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}},
  {"prism", 6, {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,0,1},{0,1,1}}, 5, {3,3,4,4,4},
   {{0,2,1},{3,4,5},{0,1,4,3},{1,2,5,4},{2,0,3,5}}},
  {"pyramid", 5, {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0.5,0.5,1}}, 5, {4,3,3,3,3},
   {{0,3,2,1},{0,1,4},{1,2,4},{2,3,4},{3,0,4}}},
  {"frustum", 8, {{0,0,0},{4,0,0},{4,4,0},{0,4,0},{1,1,2},{3,1,2},{3,3,2},{1,3,2}}, 6, {4,4,4,4,4,4},
   {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}},
  {"octahedron", 6, {{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1}}, 8, {3,3,3,3,3,3,3,3},
   {{0,2,4},{2,1,4},{1,3,4},{3,0,4},{2,0,5},{1,2,5},{3,1,5},{0,3,5}}},
  {"pentaprism", 10, {{0,0,0},{2,0,0},{3,2,0},{1,3,0},{-1,2,0},{0,0,1},{2,0,1},{3,2,1},{1,3,1},{-1,2,1}}, 7, {5,5,4,4,4,4,4},
   {{4,3,2,1,0},{5,6,7,8,9},{0,1,6,5},{1,2,7,6},{2,3,8,7},{3,4,9,8},{4,0,5,9}}},
  {"tet", 4, {{0,0,0},{1,0,0},{0,1,0},{0,0,1}}, 4, {3,3,3,3},
   {{0,2,1},{0,1,3},{1,2,3},{2,0,3}}},
};
enum { NSHAPES = 7, CUBE = 0, PRISM, PYRAMID, FRUSTUM, OCTA, PENTA, TET };
// volume and first moment of a reference shape by the divergence theorem (fan of each face)
static inline double ref_volume(const Shape& s, double c[3]) {
  double V = 0; c[0] = c[1] = c[2] = 0;
  for (int i = 0; i < s.nf; i++)
    for (int j = 1; j + 1 < s.fn[i]; j++) {
      const double *a = s.v[s.f[i][0]], *b = s.v[s.f[i][j]], *d = s.v[s.f[i][j + 1]];
      double t = a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) + a[2] * (b[0] * d[1] - b[1] * d[0]);
      V += t / 6;
      for (int k = 0; k < 3; k++) c[k] += t / 24 * (a[k] + b[k] + d[k]);
    }
  for (int k = 0; k < 3; k++) c[k] /= V;
  return V;
}
struct Frame {
  double o[3], e[3][3];
  double map(const double* x, int k) const { return o[k] + x[0] * e[0][k] + x[1] * e[1][k] + x[2] * e[2][k]; }
  Point at(const double* x) const { return Point(map(x, 0), map(x, 1), map(x, 2)); }
  double det() const {
    return e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) +
           e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]);
  }
  void sym(int b, int lg, int ob) {
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) e[i][k] = sv_grid("e", -b, b, lg);
    for (int k = 0; k < 3; k++) o[k] = sv_grid("o", -ob, ob, lg);
  }
};
// description of a polyhedron in the form the geometry functions take
struct PolyDesc { std::vector<Point> cc; std::vector<unsigned int> fn; std::vector<Point> fc; unsigned nf; };
// faces start at list position k, may be listed backwards, every face starts at its r-th node and may be reversed
static inline void describe(const Shape& s, const Frame& F, int k, bool back, int r, bool rev, int cv, PolyDesc* d) {
  std::vector<Point> v;
  for (int i = 0; i < s.nv; i++) v.push_back(F.at(s.v[i]));
  for (int i = 0; i < s.nv; i++) d->cc.push_back(v[(i + cv) % s.nv]);
  d->nf = s.nf;
  for (int i = 0; i < s.nf; i++) {
    int q = (back ? s.nf - 1 - i : i); q = (q + k) % s.nf;
    int n = s.fn[q];
    d->fn.push_back(n);
    for (int j = 0; j < n; j++) { int jj = rev ? n - 1 - j : j; d->fc.push_back(v[s.f[q][(jj + r) % n]]); }
  }
}
