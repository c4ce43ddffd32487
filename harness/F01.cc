// Options of the mesh factory and the meshes it makes or refuses.
//@ sources: factory mesh geom err
//@ quick: -DSETS=2
//@ thorough: -DSETS=3
//@ bounds: the serial build with the simple framework (MSTK selected but not built); sequences of SETS option settings (of 14: framework, partitioner, geometry, tiles, tile halo, process halo, boundary ghosts, each kind of entity included or excluded, geometric model, all kinds) with arbitrary tile and halo counts, with or without a reset at the end or in between, then a mesh made with them; requests for 1D (list of nodes, uniform), 2D and 3D meshes with cell counts -1..2 and extents given by arbitrary numbers of a grid (quarters, -2..2), geometric models of dimension 1 to 3, each framework; extraction and import requests
//@ bounds_quick: SETS=2
//@ bounds_thorough: SETS=3
#include "sv.h"
#include "meshcheck.hh"
#include "MeshFactory.hh"
#include "MeshTile.hh"
#include "MeshSet.hh"
#include "GeometricModel.hh"
using namespace Jali;
extern int metis_calls;
typedef JaliGeometry::Geom_type GT;
struct Opt {
  MeshFramework_t fw; Partitioner_type pt; GT geom; int tiles, halo, layers; bool bg, faces, edges, sides, wedges, corners; JaliGeometry::GeometricModelPtr gm;
};
static Opt defaults() { return Opt{MSTK, Partitioner_type::INDEX, GT::CARTESIAN, 0, 0, 1, false, true, false, false, false, false, nullptr}; }
static bool listed(std::vector<Entity_kind> const& l, Entity_kind k) { int n = 0; for (auto e : l) n += e == k; return n == 1; }
static void reported(MeshFactory const& f, Opt const& o) {
  sv_check(f.framework() == o.fw, "framework"); sv_check(f.partitioner() == o.pt, "partitioner"); sv_check(f.mesh_geometry() == o.geom, "geometry");
  sv_check(f.num_tiles() == o.tiles, "tiles"); sv_check(f.num_ghost_layers_tile() == o.halo, "tile-halo"); sv_check(f.num_ghost_layers_distmesh() == o.layers, "process-halo");
  sv_check(f.boundary_ghosts_requested() == o.bg, "boundary-ghosts"); sv_check(f.geometric_model() == o.gm, "geometric-model");
  auto l = f.included_entities();
  sv_check(listed(l, Entity_kind::NODE) && listed(l, Entity_kind::CELL) && listed(l, Entity_kind::FACE), "nodes-faces-cells-included");
  sv_check(listed(l, Entity_kind::EDGE) == o.edges && listed(l, Entity_kind::SIDE) == o.sides && listed(l, Entity_kind::WEDGE) == o.wedges && listed(l, Entity_kind::CORNER) == o.corners, "included-kinds");
  sv_check(l.size() == 3u + o.edges + o.sides + o.wedges + o.corners, "nothing-else-included");
}
static bool& flag(Opt& o, int k) { return k == 0 ? o.edges : k == 1 ? o.sides : k == 2 ? o.wedges : o.corners; }
static const Entity_kind EK[4] = {Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER};
static JaliGeometry::GeometricModelPtr GM[4];
static void set(MeshFactory& f, Opt& o, int k) {
  switch (k) {
    case 0: f.framework(Simple); o.fw = Simple; break;
    case 1: { bool metis = sv_concretize(sv_int("metis", 0, 1)); o.pt = metis ? Partitioner_type::METIS : Partitioner_type::BLOCK; f.partitioner(o.pt); break; }
    case 2: { o.geom = sv_concretize(sv_int("geom", 0, 1)) ? GT::SPHERICAL : GT::CYLINDRICAL; f.mesh_geometry(o.geom); break; }
    case 3: o.tiles = sv_int("tiles", 0, 3); f.num_tiles(o.tiles); break;
    case 4: o.halo = sv_int("halo", 0, 2); f.num_ghost_layers_tile(o.halo); break;
    case 5: o.layers = sv_int("layers", 0, 2); f.num_ghost_layers_distmesh(o.layers); break;
    case 6: o.bg = sv_concretize(sv_int("boundary-ghosts", 0, 1)); f.boundary_ghosts_requested(o.bg); break;
    case 7: { int e = sv_concretize(sv_int("kind", 0, 3)); f.included_entities(EK[e]); flag(o, e) = true; break; }
    case 8: { int e = sv_concretize(sv_int("kind", 0, 3)); f.excluded_entities(std::vector<Entity_kind>{EK[e]}); flag(o, e) = false; break; }
    case 9: f.included_entities(Entity_kind::ALL_KIND); o.edges = o.sides = o.wedges = o.corners = true; break;
    case 10: { o.gm = GM[sv_concretize(sv_int("model", 0, 1))]; f.geometric_model(o.gm); break; }
    case 11: f.included_entities(std::vector<Entity_kind>{Entity_kind::NODE, Entity_kind::SIDE, Entity_kind::EDGE, Entity_kind::CELL, Entity_kind::FACE}); o.sides = o.edges = true; break;
    case 12: f.excluded_entities(std::vector<Entity_kind>{Entity_kind::NODE, Entity_kind::CELL, Entity_kind::FACE, Entity_kind::CORNER, Entity_kind::WEDGE}); o.corners = o.wedges = false; break;
    case 13: f.reset_options(); o = defaults(); break;
  }
}
static bool in_effect(Mesh& m, Opt const& o, int md) {
  sv_check((int)m.manifold_dimension() == md && (int)m.space_dimension() == md, "dimension");
  sv_check(m.num_tiles() == o.tiles && (int)m.tiles().size() == o.tiles, "tiles-of-the-mesh");
  sv_check(m.geometric_model() == o.gm, "geometric-model-of-the-mesh");
  if (md == 1) sv_check(m.geom_type() == o.geom, "geometry-of-the-mesh");
  bool w = o.wedges | o.corners, s = o.sides | w, e = o.edges | s;
  sv_check(m.num_entities(Entity_kind::CELL, Entity_type::ALL) > 0 && m.num_entities(Entity_kind::NODE, Entity_type::ALL) > 0 && m.num_entities(Entity_kind::FACE, Entity_type::ALL) > 0, "basic-entities-represented");
  sv_check((m.num_entities(Entity_kind::EDGE, Entity_type::ALL) > 0) == e, "edges-represented");
  sv_check((m.num_entities(Entity_kind::SIDE, Entity_type::ALL) > 0) == s, "sides-represented");
  sv_check((m.num_entities(Entity_kind::WEDGE, Entity_type::ALL) > 0) == w, "wedges-represented");
  sv_check((m.num_entities(Entity_kind::CORNER, Entity_type::ALL) > 0) == o.corners, "corners-represented");
  for (auto const& t : m.tiles()) if (o.halo == 0) sv_check(t->num_entities(Entity_kind::CELL, Entity_type::PARALLEL_GHOST) == 0, "no-halo");
  if (o.tiles == 2 && o.halo > 0 && o.pt == Partitioner_type::INDEX && md == 1) for (auto const& t : m.tiles()) {
    int owned = t->num_entities(Entity_kind::CELL, Entity_type::PARALLEL_OWNED), other = m.num_entities(Entity_kind::CELL, Entity_type::ALL) - owned;
    sv_check((int)t->num_entities(Entity_kind::CELL, Entity_type::PARALLEL_GHOST) == (other < o.halo ? other : o.halo), "halo-of-the-tiles");
  }
  return true;
}
template <class Req> std::shared_ptr<Mesh> request(Req r, bool* threw) {
  std::shared_ptr<Mesh> m;
  *threw = false;
  try { m = r(); } catch (Errors::Message const&) { *threw = true; } catch (std::exception const&) { *threw = true; sv_check(false, "refused-with-a-message"); }
  return m;
}
static void options() {
  MeshFactory f(MPI_COMM_WORLD);
  Opt o = defaults();
  reported(f, o);
  for (int i = 0; i < SETS; i++) { set(f, o, sv_concretize(sv_int("option", 0, 13))); reported(f, o); }
  if (sv_concretize(sv_int("reset", 0, 1))) { f.reset_options(); o = defaults(); reported(f, o); }
  // a mesh made with these options
  bool threw;
  sv_assume(o.layers >= 0);
  auto none = request([&] { return f(std::vector<double>{0, 1, 3, 4, 6}); }, &threw);
  sv_check(threw == !none, "mesh-or-error");
  if (o.fw != Simple) { sv_check(threw, "framework-that-is-not-there"); f.framework(Simple); o.fw = Simple; }
  metis_calls = 0;
  auto m = request([&] { return f(std::vector<double>{0, 1, 3, 4, 6}); }, &threw);
  bool can = !o.bg & (o.gm == nullptr);
  if (o.gm) can = !o.bg & (o.gm->dimension() == 1);
  can = can & (o.pt != Partitioner_type::BLOCK || o.tiles == 0);
  if (can) {
    sv_check(!threw && m.get() != nullptr, "mesh-made");
    if (m) { in_effect(*m, o, 1); sv_check((int)m->num_entities(Entity_kind::CELL, Entity_type::ALL) == 4, "cells-of-the-mesh"); sv_check(metis_calls == 0, "no-graph-partitioner-in-1d"); }
  } else if (o.bg || (o.gm && o.gm->dimension() != 1)) sv_check(threw, "refused");
  metis_calls = 0;
  auto q = request([&] { return f(0.0, 0.0, 0.0, 2.0, 2.0, 1.0, 2, 2, 1); }, &threw);
  bool impossible = o.bg | (o.gm != nullptr && o.gm->dimension() != 3) | o.edges | o.sides | o.wedges | o.corners;
  sv_check(threw == !q, "mesh-or-error");
  if (impossible) sv_check(threw, "refused");
  else if (o.geom == GT::CARTESIAN && !(o.pt == Partitioner_type::BLOCK && o.tiles > 0)) {
    sv_check(!threw && q.get() != nullptr, "mesh-made");
    if (q) { in_effect(*q, o, 3); sv_check((int)q->num_entities(Entity_kind::CELL, Entity_type::ALL) == 4, "cells-of-the-mesh"); if (o.tiles != 1) sv_check((metis_calls > 0) == (o.pt == Partitioner_type::METIS && o.tiles > 1), "partitioner-used"); }
  }
  reported(f, o);
  f.reset_options();
  reported(f, defaults());
  sv_cover(can ? "mesh-made" : "refused");
}
static void requests() {
  MeshFactory f(MPI_COMM_WORLD);
  int dim = sv_concretize(sv_int("dimension", 0, 4));          // 0: 1D uniform, 1: 1D list, 4: extraction and import
  int fw = sv_concretize(sv_int("framework", 0, 1));
  if (fw) f.framework(Simple);
  int g = sv_concretize(sv_int("model", 0, 3));
  if (g) f.geometric_model(GM[g]);
  bool threw;
  std::shared_ptr<Mesh> m;
  bool ok = fw;
  if (dim == 0) {
    double a = 1.5, b = 1.5;                                     // an empty interval, or any interval of non-zero extent
    if (!sv_concretize(sv_int("empty", 0, 1))) { a = sv_grid("x0", -8, 8, 2); b = sv_grid("x1", -8, 8, 2); sv_assume(a != b); }
    int n = sv_concretize(sv_int("nx", -1, 4));
    m = request([&] { return f(a, b, n); }, &threw);
    ok = ok & (g == 0 || g == 1) & (n > 0) & (b > a);
    if (m) {
      sv_check((int)m->num_entities(Entity_kind::CELL, Entity_type::ALL) == n && (int)m->num_entities(Entity_kind::NODE, Entity_type::ALL) == n + 1, "cells-requested");
      for (int i = 0; i <= n; i++) { JaliGeometry::Point p; m->node_get_coordinates(i, &p); sv_check_close(p[0], a + i * (b - a) / n, 1e-9, "uniform-nodes"); }
    }
  } else if (dim == 1) {
    int n = sv_concretize(sv_int("nodes", 0, 4));
    std::vector<double> x;
    bool up = true;
    for (int i = 0; i < n; i++) { x.push_back(sv_grid("x", -8, 8, 2)); if (i) up = up & (x[i] > x[i - 1]); }
    m = request([&] { return f(x); }, &threw);
    ok = ok & (g == 0 || g == 1) & (n > 1) & up;
    if (m) {
      sv_check((int)m->num_entities(Entity_kind::CELL, Entity_type::ALL) == n - 1 && (int)m->num_entities(Entity_kind::NODE, Entity_type::ALL) == n, "cells-requested");
      for (int i = 0; i < n; i++) { JaliGeometry::Point p; m->node_get_coordinates(i, &p); sv_check(p[0] == x[i], "nodes-as-given"); }
    }
  } else if (dim == 2) {
    double a = sv_grid("x0", -8, 8, 2), b = sv_grid("x1", -8, 8, 2);
    int n = sv_concretize(sv_int("nx", -1, 2)), k = sv_concretize(sv_int("ny", -1, 2));
    m = request([&] { return f(a, 0.0, b, 1.0, n, k); }, &threw);
    ok = false;
  } else if (dim == 3) {
    double a = sv_grid("x0", -8, 8, 2), b = sv_grid("x1", -8, 8, 2), h = sv_grid("z1", -8, 8, 2);
    int n = sv_concretize(sv_int("nx", -1, 2)), ny = sv_concretize(sv_int("ny", 0, 1)), k = sv_concretize(sv_int("nz", -1, 1));
    int e = sv_concretize(sv_int("exotic", 0, 2));
    if (e == 1) f.boundary_ghosts_requested(true);
    if (e == 2) f.included_entities(Entity_kind::EDGE);         // no edges in the 3D simple mesh
    m = request([&] { return f(a, 1.0, -1.0, b, 2.0, h, n, ny, k); }, &threw);
    ok = ok & (g == 0 || g == 3) & (n > 0) & (ny > 0) & (k > 0) & (b > a) & (h > -1.0) & (e == 0);
    if (m) {
      sv_check((int)m->num_entities(Entity_kind::CELL, Entity_type::ALL) == n * ny * k && (int)m->num_entities(Entity_kind::NODE, Entity_type::ALL) == (n + 1) * (ny + 1) * (k + 1), "cells-requested");
      JaliGeometry::Point p, q;
      m->node_get_coordinates(0, &p);
      m->node_get_coordinates((n + 1) * (ny + 1) * (k + 1) - 1, &q);
      sv_check((p[0] == a) & (p[1] == 1.0) & (p[2] == -1.0), "lower-corner");
      sv_check_close(q[0], b, 1e-9, "upper-corner"); sv_check_close(q[1], 2.0, 1e-9, "upper-corner"); sv_check_close(q[2], h, 1e-9, "upper-corner");
    }
  } else {
    if (sv_concretize(sv_int("import", 0, 1))) m = request([&] { return f("no-such-file.exo"); }, &threw);
    else {
      MeshFactory s(MPI_COMM_WORLD); s.framework(Simple);
      auto in = s(0, 0, 0, 1, 1, 1, 1, 1, 1);
      m = request([&] { return f(in, std::vector<std::string>{"a"}, Entity_kind::CELL, sv_concretize(sv_int("flatten", 0, 1)), sv_concretize(sv_int("extrude", 0, 1))); }, &threw);
    }
    ok = false;
  }
  if (ok) { sv_check(!threw && m.get() != nullptr, "possible-request-met"); if (m) sv_check(m->geometric_model() == (g ? GM[g] : nullptr), "geometric-model-of-the-mesh"); }
  else sv_check(threw && !m, "impossible-request-refused");
  sv_cover(ok ? "met" : "refused-request");
}
extern "C" void sv_main() {
  Exceptions::set_exception_behavior(Exceptions::RAISE);
  std::vector<JaliGeometry::RegionPtr> none;
  for (int i = 1; i < 4; i++) GM[i] = new JaliGeometry::GeometricModel(i, none);
  GM[0] = GM[3];
  if (sv_concretize(sv_int("part", 0, 1))) options(); else { GM[0] = nullptr; requests(); }
  sv_check(framework_available(Simple) && !framework_available(MOAB) && !framework_available(STKMESH) && !framework_available(MSTK), "frameworks-available");
}
