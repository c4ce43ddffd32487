// Sets built from geometric regions.
//@ sources: mesh geom err
//@ bounds: grid of 2x2 quadrilaterals, polygons, planar surface, hexahedra, prism and tetrahedron, hexahedron and pyramid, a thin skewed layer; box regions with arbitrary corners, planes of 3 directions at any offset, axis-parallel polygons (segments in 2D) at any offset and extent, points anywhere (multiples of 1/16; entities closer than 1e-3 to a limit without lying on it are left open), labelled sets; every supported kind, by explicit request and by default; last cell owned or ghost
//@ bounds_quick: one direction of a box arbitrary at a time, one of a polygon
//@ bounds_thorough: all directions of boxes and polygons arbitrary at once
//@ quick: -DALLDIRS=0
//@ thorough: -DALLDIRS=1
#include "sv.h"
#include "tmesh.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "GeometricModel.hh"
using namespace JaliGeometry;
static Topo shape(int k) {
  switch (k) {
    case 0: return grid2(2, 2);
    case 1: return patch2();
    case 2: return surface(grid2(2, 1), 0.75, 0);
    case 3: return hex2();
    case 4: return prismtet();
    case 5: return hexpyr();
    default: {                                   // a tall cell below thin skewed ones
      Topo t; t.sd = t.md = 2;
      t.xyz = {{0, 0}, {8, 0}, {8, 8}, {0, 8}, {4, 8.25}, {12, 8.25}, {12, 9}, {4, 9}};
      t.cell2({0, 1, 2, 3}); t.cell2({3, 2, 5, 4}); t.cell2({4, 5, 6, 7});
      return t;
    }
  }
}
static Point mk(std::vector<double> const& v) { Point p((int)v.size()); for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; return p; }
static std::vector<double> mean(TestMesh const& m, IL const& ns) { std::vector<double> s(m.t.sd, 0.0); for (int n : ns) for (int k = 0; k < m.t.sd; k++) s[k] += m.x[n][k] / ns.size(); return s; }
// centroid of a cell, independent of the code under test
static std::vector<double> centre(Topo const& t, int c) {
  std::vector<double> M(t.sd, 0.0);
  double V = 0;
  auto const& o = t.xyz[t.cn[c][0]];
  if (t.md == 2) {
    IL const& f = t.cn[c];
    for (size_t j = 1; j + 1 < f.size(); j++) {
      auto const& a = t.xyz[f[j]]; auto const& b = t.xyz[f[j + 1]];
      double w = (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]);
      V += w;
      for (int k = 0; k < t.sd; k++) M[k] += w * (o[k] + a[k] + b[k]) / 3;
    }
  } else for (IL const& f : t.cf[c]) for (size_t j = 1; j + 1 < f.size(); j++) {
    double a[3], b[3], d[3];
    for (int k = 0; k < 3; k++) { a[k] = t.xyz[f[0]][k] - o[k]; b[k] = t.xyz[f[j]][k] - o[k]; d[k] = t.xyz[f[j + 1]][k] - o[k]; }
    double w = a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) + a[2] * (b[0] * d[1] - b[1] * d[0]);
    V += w;
    for (int k = 0; k < 3; k++) M[k] += w * (o[k] * 4 + a[k] + b[k] + d[k]) / 4;
  }
  for (int k = 0; k < t.sd; k++) M[k] /= V;
  return M;
}
// sign of the distance from p to the boundary of a convex cell: 1 inside, -1 outside; points closer than 1e-3 to it are not considered
static int within(Topo const& t, int c, std::vector<double> const& p) {
  bool in = true, out = false;
  for (IL const& f : t.cf[c]) {
    double s;
    auto const& o = t.xyz[f[0]]; auto const& a = t.xyz[f[1]];
    if (t.md == 2) s = (a[0] - o[0]) * (p[1] - o[1]) - (a[1] - o[1]) * (p[0] - o[0]);
    else {
      auto const& b = t.xyz[f[2]];
      double u[3], v[3], n[3];
      for (int k = 0; k < 3; k++) { u[k] = a[k] - o[k]; v[k] = b[k] - o[k]; }
      for (int k = 0; k < 3; k++) n[k] = u[(k + 1) % 3] * v[(k + 2) % 3] - u[(k + 2) % 3] * v[(k + 1) % 3];
      s = -(n[0] * (p[0] - o[0]) + n[1] * (p[1] - o[1]) + n[2] * (p[2] - o[2]));
    }
    sv_assume((s > 1e-3) | (s < -1e-3));
    in = in & (s > 0); out = out | (s < 0);
  }
  (void)out;
  return in;
}
static bool away(double v, double lim) { return (v - lim > 1e-3) | (lim - v > 1e-3); }
struct Want { Entity_kind kind; IL all; };
extern "C" void sv_main() {
  int what = sv_concretize(sv_int("mesh", 0, 6)), type = sv_concretize(sv_int("region", 0, 4));
  Topo t = shape(what);
  int sd = t.sd, nc = t.cn.size();
  sv_assume(!(what == 6 && type != 3) & !(what == 2 && type == 3));
  MeshOpts o;
  bool ghost = sv_concretize(sv_int("last-cell-is-a-ghost", 0, 1));
  for (int c = 0; c < nc; c++) o.ctype.push_back(ghost && c == nc - 1 ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED);
  bool bydefault = ALLDIRS ? sv_concretize(sv_int("default-kinds", 0, 1)) : ghost;
  TestMesh probe(t, o);
  int nf = probe.fn.size(), nn = t.xyz.size();
  std::vector<Want> want;
  Region* r = nullptr;
  std::vector<Entity_kind> dflt;
  if (type == 0) {
    std::vector<double> a(sd), b(sd);
    int bd = ALLDIRS ? -1 : sv_concretize(sv_int("arbitrary-direction", 0, sd - 1));
    for (int k = 0; k < sd; k++) {
      if (bd >= 0 && k != bd) { a[k] = -0.875; b[k] = sv_concretize(sv_int("narrow", 0, 1)) ? 0.6875 : 40; if (k & 1) std::swap(a[k], b[k]); }
      else { a[k] = sv_grid("p", -32, 128, 4); b[k] = sv_grid("q", -32, 128, 4); sv_assume(away(a[k], b[k])); }
    }
    auto in = [&](std::vector<double> const& c) {
      bool all = true;
      for (int k = 0; k < sd; k++) { sv_assume(away(c[k], a[k]) & away(c[k], b[k])); all = all & (((a[k] < c[k]) & (c[k] < b[k])) | ((b[k] < c[k]) & (c[k] < a[k]))); }
      return all;
    };
    Want wc{Entity_kind::CELL, {}}, wf{Entity_kind::FACE, {}}, wn{Entity_kind::NODE, {}};
    for (int c = 0; c < nc; c++) if (in(centre(t, c))) wc.all.push_back(c);
    for (int f = 0; f < nf; f++) if (in(mean(probe, probe.fn[f]))) wf.all.push_back(f);
    for (int n = 0; n < nn; n++) if (in(t.xyz[n])) wn.all.push_back(n);
    want = {wc, wf, wn};
    dflt = {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE};
    r = new BoxRegion("R", 7, mk(a), mk(b));
  } else if (type == 1 || type == 2) {
    int dir = sv_concretize(sv_int("direction", 0, type == 1 ? 2 : sd - 1));
    std::vector<double> n(sd, 0.0), p(sd, 0.0);
    double off = sv_grid("offset", -32, 128, 4);
    double lo = 0, hi = 0, lo2 = 0, hi2 = 0;
    if (dir < sd && dir < 2) n[dir] = 1; else if (what == 2 && type == 1) { n[0] = -0.75; n[2] = 1; } else if (dir == 2 && type == 2) n[2] = 1; else { n[0] = 1; n[1] = 2; }
    int ax = type == 2 ? dir : n[0] != 0 ? 0 : 1;
    p[ax] = off;
    if (type == 2) {
      lo = sv_grid("lo", -33, 129, 4); hi = lo + sv_grid("len", 1, 160, 4); if (sd == 3 && !ALLDIRS) { lo2 = -0.875; hi2 = 40; } else if (sd == 3) { lo2 = sv_grid("lo2", -33, 129, 4); hi2 = lo2 + sv_grid("len2", 1, 160, 4); }
    }
    int u = (ax + 1) % sd, v = sd == 3 ? (ax + 2) % 3 : -1;
    auto on = [&](std::vector<double> const& c) {
      double s = 0;
      for (int k = 0; k < sd; k++) s = s + n[k] * (c[k] - p[k]);
      sv_assume((s == 0) | away(s, 0));
      bool yes = s == 0;
      if (type == 2) {
        sv_assume(away(c[u], lo) & away(c[u], hi));
        yes = yes & (lo < c[u]) & (c[u] < hi);
        if (v >= 0) { sv_assume(away(c[v], lo2) & away(c[v], hi2)); yes = yes & (lo2 < c[v]) & (c[v] < hi2); }
      }
      return yes;
    };
    std::vector<bool> non(nn);
    Want wc{Entity_kind::CELL, {}}, wf{Entity_kind::FACE, {}}, wn{Entity_kind::NODE, {}};
    for (int i = 0; i < nn; i++) { non[i] = on(t.xyz[i]); if (non[i]) wn.all.push_back(i); }
    for (int f = 0; f < nf; f++) { bool all = true; for (int i : probe.fn[f]) all = all && non[i]; if (all) wf.all.push_back(f); }
    for (int c = 0; c < nc; c++) { bool all = true; for (int i : t.cn[c]) all = all && non[i]; if (all) wc.all.push_back(c); }
    want = {wf, wn};
    if (type == 1 && t.md == 2 && sd == 3) want.push_back(wc);
    dflt = {Entity_kind::FACE, Entity_kind::NODE};
    if (type == 1) r = new PlaneRegion("R", 7, mk(p), mk(n));
    else {
      std::vector<Point> q;
      for (int i = 0; i < (sd == 3 ? 4 : 2); i++) {
        std::vector<double> c(sd, 0.0);
        c[ax] = off; c[u] = i == 0 || i == 3 ? lo : hi;
        if (v >= 0) c[v] = i < 2 ? lo2 : hi2;
        q.push_back(mk(c));
      }
      r = new PolygonRegion("R", 7, q.size(), q);
    }
  } else if (type == 3) {
    std::vector<double> p(sd);
    bool atnode = sv_concretize(sv_int("at-a-node", 0, 1));
    int node = -1;
    if (atnode) { node = sv_concretize(sv_int("node", 0, nn - 1)); p = t.xyz[node]; }
    else for (int k = 0; k < sd; k++) p[k] = sv_grid("p", -16, 200, 4);
    Want wc{Entity_kind::CELL, {}}, wn{Entity_kind::NODE, {}};
    if (!atnode) {
      for (int n = 0; n < nn; n++) { bool apart = false; for (int k = 0; k < sd; k++) apart = apart | away(p[k], t.xyz[n][k]); sv_assume(apart); }
      for (int c = 0; c < nc; c++) if (within(t, c, p)) wc.all.push_back(c);
      want = {wc};
    } else wn.all.push_back(node);
    want.push_back(wn);
    dflt = {Entity_kind::NODE};
    r = new PointRegion("R", 7, mk(p));
  } else {
    static const char* const NAME[6] = {"CELL", "FACE", "NODE", "Entity_kind::CELL", "Entity_kind::FACE", "Entity_kind::NODE"};
    int k = sv_concretize(sv_int("label-kind", 0, 5));
    Want w{k % 3 == 0 ? Entity_kind::CELL : k % 3 == 1 ? Entity_kind::FACE : Entity_kind::NODE, {}};
    std::vector<Entity_type> const& ty = k % 3 == 0 ? probe.tc : k % 3 == 1 ? probe.tf : probe.tn;
    int last = (int)ty.size() - 1;
    for (int e : {last, 0, last / 2}) if (sv_concretize(sv_int("labelled", 0, 1)) && !has(w.all, e)) w.all.push_back(e);
    want = {w};
    dflt = {w.kind};
    r = new LabeledSetRegion("R", 7, NAME[k], "file", "format", "10");
  }
  GeometricModel gm(sd, {r});   // Add_Region takes no labelled set regions in 2D models
  o.gm = &gm;
  TestMesh m(t, o);
  if (type == 4) for (int e : want[0].all) {
    std::vector<Entity_type> const& ty = want[0].kind == Entity_kind::CELL ? m.tc : want[0].kind == Entity_kind::FACE ? m.tf : m.tn;
    (ty[e] == Entity_type::PARALLEL_OWNED ? m.labeled["10"].first : m.labeled["10"].second).push_back(e);
  }
  std::map<std::string, std::vector<Entity_kind>> kinds;
  if (!bydefault) for (auto& w : want) kinds["R"].push_back(w.kind);
  m.init_sets_from_geometric_model(kinds);
  for (auto& w : want) {
    bool listed = !bydefault;
    if (bydefault) for (Entity_kind k : dflt) listed = listed || k == w.kind;
    auto s = m.find_meshset("R", w.kind);
    sv_check(!listed || s.get() != nullptr, "set-exists");
    if (type != 4 || w.kind != Entity_kind::EDGE) sv_check(m.valid_region_name("R", w.kind) || (type == 1 && w.kind == Entity_kind::CELL), "region-name-valid");
    if (!s) {
      sv_check(m.get_set_size("R", w.kind, Entity_type::ALL) == 0, "missing-set-is-empty");
      if (type == 1) continue;
      s = m.find_meshset_from_region("R", w.kind, true);
      sv_check(s.get() != nullptr, "set-created-on-demand");
      if (!s) continue;
    }
    IL ow, gh;
    for (int e : w.all) (m.entity_get_type(w.kind, e) == Entity_type::PARALLEL_OWNED ? ow : gh).push_back(e);
    IL a, b, c;
    m.get_set_entities("R", w.kind, Entity_type::PARALLEL_OWNED, &a);
    m.get_set_entities("R", w.kind, Entity_type::PARALLEL_GHOST, &b);
    m.get_set_entities("R", w.kind, Entity_type::ALL, &c);
    sv_check(dupfree(a) && a.size() == ow.size() && sameset(a, ow), "owned-members");
    sv_check(dupfree(b) && b.size() == gh.size() && sameset(b, gh), "ghost-members");
    a.insert(a.end(), b.begin(), b.end());
    sv_check(a == c, "all-members");
    sv_check(m.get_set_size("R", w.kind, Entity_type::PARALLEL_OWNED) == ow.size() && m.get_set_size("R", w.kind, Entity_type::PARALLEL_GHOST) == gh.size() && m.get_set_size("R", w.kind, Entity_type::ALL) == w.all.size(), "set-size");
    sv_check(m.find_meshset("R", w.kind).get() == s.get() && m.find_meshset_from_region("R", w.kind, true).get() == (m.valid_region_name("R", w.kind) ? s.get() : nullptr), "asking-again");
    int before = m.num_sets();
    m.init_sets_from_geometric_model(kinds);
    sv_check(m.num_sets() == before && m.find_meshset("R", w.kind).get() == s.get(), "initialising-again");
  }
  sv_check(m.find_meshset("S", Entity_kind::NODE).get() == nullptr, "unknown-set");
  sv_cover(type == 0 ? "box" : type == 1 ? "plane" : type == 2 ? "polygon" : type == 3 ? "point" : "labelled");
  delete r;
}
