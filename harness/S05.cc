// Retrieval of sets from a mesh and its tiles.
//@ sources: mesh geom err
//@ bounds: rows of 3 and grids of 2x2 cells with the last cell owned or ghost (and, in a row, a boundary ghost after it), cells divided among up to MAXT tiles in any way (a row by index space), halos of 0 to 2 layers; sets of every kind of entity with any of PAT membership patterns, listed in ascending or descending order; parallel types owned, ghost, all, and boundary ghost; further sets of the same name and of the same kind
//@ bounds_quick: MAXT=3, PAT=8
//@ bounds_thorough: MAXT=4, PAT=8
//@ quick: -DMAXT=3 -DPAT=8
//@ thorough: -DMAXT=4 -DPAT=8
#include "sv.h"
#include "tmesh.hh"
#include "tiles.hh"
using Jali::Partitioner_type;
extern "C" void sv_main() {
  bool rowm = sv_concretize(sv_int("row", 0, 1));
  Topo t = rowm ? row({0, 1, 3, 4, 6}) : grid2(2, 2);
  MeshOpts o;
  o.ntiles = sv_concretize(sv_int("tiles", 1, MAXT)); o.halo = sv_concretize(sv_int("halo", 0, 2));
  o.pt = rowm ? Partitioner_type::INDEX : Partitioner_type::METIS;
  o.faces = o.edges = o.sides = o.wedges = o.corners = true;
  bool ghost = sv_concretize(sv_int("with-a-ghost", 0, 1));
  int nc = t.cn.size();
  for (int c = 0; c < nc; c++) o.ctype.push_back(rowm && c == nc - 1 ? Entity_type::BOUNDARY_GHOST : ghost && c == nc - 1 - rowm ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED);
  TestMesh m(t, o);
  static const Entity_kind KIND[7] = {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER};
  static const unsigned MASK[8] = {0xffffffffu, 0x5a5a5a5au, 0xcccccccau, 0, 0x11111111u, 0xf0f0f0f1u, 0x88888888u, 0x0000ffffu};
  unsigned mask = MASK[sv_concretize(sv_int("members", 0, PAT - 1))];
  bool down = sv_concretize(sv_int("descending", 0, 1));
  std::vector<IL> ow(7), gh(7);
  std::vector<std::shared_ptr<Jali::MeshSet>> made;
  for (int k = 0; k < 7; k++) {
    int n = m.num_entities(KIND[k], Entity_type::ALL);
    for (int i = 0; i < n; i++) {
      int e = down ? n - 1 - i : i;
      Entity_type ty = m.entity_get_type(KIND[k], e);
      if (mask >> ((e + k) % 32) & 1) { if (ty == Entity_type::PARALLEL_OWNED) ow[k].push_back(e); else if (ty == Entity_type::PARALLEL_GHOST) gh[k].push_back(e); }
    }
    if (k == 2) continue;                                  // no set of faces of this name ...
    made.push_back(Jali::make_meshset("S", m, KIND[k], ow[k], gh[k], k & 1));
  }
  ow[2] = {0}; gh[2] = {};
  made.push_back(Jali::make_meshset("T", m, Entity_kind::FACE, ow[2], gh[2], true));   // ... but of another one
  made.push_back(Jali::make_meshset("SS", m, Entity_kind::CELL, IL(), IL(), true));
  static const Entity_type TYPE[4] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL, Entity_type::BOUNDARY_GHOST};
  sv_check(m.num_sets() == (int)made.size() && m.num_sets(Entity_kind::CELL) == 2 && m.num_sets(Entity_kind::FACE) == 1 && m.num_sets(Entity_kind::BOUNDARY_FACE) == 0, "number-of-sets");
  auto const& all = m.sets();
  auto cs = m.sets(Entity_kind::CELL);
  sv_check(all.size() == made.size() && cs.size() == 2 && cs[0] == made[0] && cs[1] == made.back(), "list-of-sets");
  for (int k = 0; k < 7; k++) {
    char const* nm = k == 2 ? "T" : "S";
    auto s = m.find_meshset(nm, KIND[k]);
    sv_check(s.get() != nullptr && s->name() == nm && s->kind() == KIND[k], "set-found");
    sv_check(!m.find_meshset(k == 2 ? "S" : "T", KIND[k]), "set-of-another-kind");
    sv_check(!m.find_meshset("s", KIND[k]) && !m.find_meshset("", KIND[k]), "no-such-set");
    if (s) sv_check(s.get() == made[k < 2 ? k : k == 2 ? 6 : k - 1].get(), "right-set-found");
    IL both = ow[k]; both.insert(both.end(), gh[k].begin(), gh[k].end());
    for (int j = 0; j < 4; j++) {
      IL const want = j == 0 ? ow[k] : j == 1 ? gh[k] : j == 2 ? both : IL();
      IL l{7, 8, 9};
      m.get_set_entities(nm, KIND[k], TYPE[j], &l);
      sv_check(l.size() == want.size() && sameset(l, want), "members-by-type");
      sv_check(m.get_set_size(nm, KIND[k], TYPE[j]) == want.size(), "set-size");
      l = {7, 8, 9};
      m.get_set_entities("none", KIND[k], TYPE[j], &l);
      sv_check(l.empty() && m.get_set_size("none", KIND[k], TYPE[j]) == 0, "unknown-set-is-empty");
      if (j == 3) continue;
      for (auto const& tl : m.tiles()) {
        IL mine = j == 0 ? tile_owned(*tl, KIND[k]) : j == 1 ? tile_ghost(*tl, KIND[k]) : tile_all(*tl, KIND[k]), w;
        for (int e : mine) if (has(both, e)) w.push_back(e);
        l = {7, 8, 9};
        tl->get_set_entities(nm, KIND[k], TYPE[j], &l);
        sv_check(l.size() == w.size() && sameset(l, w), "members-in-a-tile");
        l = {7, 8, 9};
        tl->get_set_entities("none", KIND[k], TYPE[j], &l);
        sv_check(l.empty(), "unknown-set-is-empty-in-a-tile");
      }
    }
  }
  sv_cover(rowm ? "row" : "grid");
}
