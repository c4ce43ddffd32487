// Histories of changes to a set.
//@ sources: mesh geom err
//@ bounds: sets of cells or nodes of a mesh with 3 owned, 2 ghost and (cells) 1 boundary ghost entities, with and without index map; any initial members in either order; histories of single additions and removals, additions and removals of any two entities in any order or of none, and a final clear; additions are of entities not in the set (the interface does not look for duplicates), removals of any entity
//@ bounds_quick: 4 initial sets, 2 changes
//@ bounds_thorough: 32 initial sets, 3 changes of which the last is a single one
//@ quick: -DSTEPS=2 -DINIT=4
//@ thorough: -DSTEPS=3 -DINIT=32
#include "sv.h"
#include "tmesh.hh"
static void verify(Jali::MeshSet& s, TestMesh& m, Entity_kind k, std::vector<bool> const& in, bool map) {
  IL ow, gh;
  for (int e = 0; e < (int)in.size(); e++) if (in[e]) (m.entity_get_type(k, e) == Entity_type::PARALLEL_OWNED ? ow : gh).push_back(e);
  IL o = s.entities<Entity_type::PARALLEL_OWNED>(), g = s.entities<Entity_type::PARALLEL_GHOST>(), a = s.entities<Entity_type::ALL>();
  sv_check(o.size() == ow.size() && sameset(o, ow), "owned-members");
  sv_check(g.size() == gh.size() && sameset(g, gh), "ghost-members");
  o.insert(o.end(), g.begin(), g.end());
  sv_check(a == o, "all-is-owned-then-ghost");
  sv_check((size_t)s.num_entities(Entity_type::PARALLEL_OWNED) == ow.size() && (size_t)s.num_entities(k, Entity_type::PARALLEL_GHOST) == gh.size() && (size_t)s.num_entities() == ow.size() + gh.size(), "set-size");
  if (map) for (int e = 0; e < (int)in.size(); e++) {
    int at = -1;
    for (int i = 0; i < (int)a.size(); i++) if (a[i] == e) at = i;
    sv_check(s.index_in_set(e) == at, "index-in-set");
  }
}
extern "C" void sv_main() {
  bool nodes = sv_concretize(sv_int("nodes", 0, 1)), map = sv_concretize(sv_int("index-map", 0, 1));
  Topo t = row({0, 1, 2, 3, 4, 5, 6});
  if (nodes) t = row({0, 1, 2, 3, 4});
  MeshOpts o; o.faces = false;
  for (int c = 0; c < (int)t.cn.size(); c++) o.ctype.push_back(c < 3 ? Entity_type::PARALLEL_OWNED : c < 5 ? Entity_type::PARALLEL_GHOST : Entity_type::BOUNDARY_GHOST);
  for (int n = 0; n < (int)t.xyz.size(); n++) o.ntype.push_back(n < 3 ? Entity_type::PARALLEL_OWNED : Entity_type::PARALLEL_GHOST);
  TestMesh m(t, o);
  Entity_kind k = nodes ? Entity_kind::NODE : Entity_kind::CELL;
  int N = nodes ? 5 : 6;
  static const int START[4] = {0, 0x1f, 0x0b, 0x14};
  int mask = sv_concretize(sv_int("initial", 0, INIT - 1));
  if (INIT == 4) mask = START[mask];
  bool down = sv_concretize(sv_int("descending", 0, 1));
  std::vector<bool> in(N, false);
  IL ow, gh;
  for (int i = 0; i < 5; i++) { int e = down ? 4 - i : i; if (mask >> e & 1) { (e < 3 ? ow : gh).push_back(e); in[e] = true; } }
  auto s = Jali::make_meshset("S", m, k, ow, gh, map);
  verify(*s, m, k, in, map);
  for (int step = 0; step < STEPS; step++) {
    int op = sv_concretize(sv_int("operation", 0, STEPS == 3 && step == 2 ? 1 : 4));
    if (op < 2) {
      int e = sv_concretize(sv_int("entity", 0, N - 1));
      if (op == 0) {
        sv_assume(!in[e]);
        s->add_entity(e);
        if (m.entity_get_type(k, e) != Entity_type::BOUNDARY_GHOST) in[e] = true;
      } else { s->rem_entity(e); in[e] = false; }
    } else if (op < 4) {
      int a = sv_concretize(sv_int("first", 0, N - 1)), b = sv_concretize(sv_int("second", 0, N - 1));
      sv_assume(a != b);
      IL l{a, b};
      if (op == 2) {
        sv_assume(!in[a] & !in[b]);
        s->add_entities(l);
        for (int e : l) if (m.entity_get_type(k, e) != Entity_type::BOUNDARY_GHOST) in[e] = true;
      } else { s->rem_entities(l); for (int e : l) in[e] = false; }
    } else if (sv_concretize(sv_int("add-none", 0, 1))) s->add_entities(IL());
    else s->rem_entities(IL());
    verify(*s, m, k, in, map);
  }
  sv_check(s->name() == std::string("S") && s->kind() == k && &s->mesh() == &m, "name-and-kind-kept");
  s->clear();
  sv_check(s->num_entities() == 0 && s->num_entities(Entity_type::PARALLEL_OWNED) == 0 && s->num_entities(Entity_type::PARALLEL_GHOST) == 0 && s->entities<Entity_type::ALL>().empty() && s->entities<Entity_type::PARALLEL_OWNED>().empty() && s->entities<Entity_type::PARALLEL_GHOST>().empty(), "cleared-set-is-empty");
  for (int e = 0; e < N; e++) sv_check(s->index_in_set(e) == -1, "cleared-index");
  sv_cover(nodes ? "nodes" : "cells");
}
