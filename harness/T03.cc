// Entities of tiles, their owners and halos.
//@ sources: mesh geom err
//@ bounds: any labelling of the cells by tile (through the METIS interface), also with empty tiles, and for 1D rows the index space partition; rows of 3 and 5 cells, grids of 2x2 and 3x2 quadrilaterals, polygons, hexahedra, mixed cells, planar surface, with the last cell owned or ghost; 4x4 quadrilaterals, 2x2x2 hexahedra and a row of 10 cut into 4, 5, 6 or 8 tiles by index space or into blocks; halos of 0 to 3 layers; requests of faces only, of all subcell entities, of sides only, corners only, edges only, nothing
//@ bounds_quick: 1 to 3 tiles
//@ bounds_thorough: 1 to 4 tiles
//@ quick: -DMAXT=3 -DTIE=0
//@ thorough: -DMAXT=4 -DTIE=0
#include "sv.h"
#include "tmesh.hh"
#include "tiles.hh"
using Jali::Partitioner_type;
extern "C" void sv_main() {
  int kind = sv_concretize(sv_int("mesh", 0, 13)), nt = sv_concretize(sv_int("tiles", 1, kind > 10 ? 8 : MAXT));
  int req = sv_concretize(sv_int("request", 0, 5));      // 0 faces, 1 all, 2 sides, 3 corners, 4 edges, 5 nothing
  bool big = kind > 10;                                  // larger meshes, cut by index space or into blocks
  if (big) sv_assume((nt > 3) & (nt != 7) & (req != 2) & (req != 4));
  int halo;
  if (TIE) { static const int H[3] = {0, 1, 2}; halo = H[(kind + req + nt) % 3]; if (kind == 8) halo = (req + nt) % 4; }
  else halo = sv_concretize(sv_int("halo", 0, 3));
  Topo t = kind == 8 ? row({0, 1, 2, 4, 5, 7}) : kind == 9 ? grid2(2, 2) : kind == 10 ? grid2(3, 2) : kind == 11 ? grid2(4, 4) : kind == 12 ? grid3(2, 2, 2) : kind == 13 ? row({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}) : pick(kind);
  sv_assume(kind != 10 || nt < 3);
  MeshOpts o; o.ntiles = nt; o.halo = halo; o.pt = t.sd == 1 ? Partitioner_type::INDEX : big ? sv_concretize(sv_int("blocks", 0, 1)) ? Partitioner_type::BLOCK : Partitioner_type::INDEX : Partitioner_type::METIS;
  o.faces = req < 2; o.edges = req == 1 || req == 4; o.sides = req == 1 || req == 2; o.wedges = req == 1; o.corners = req == 1 || req == 3;
  if (o.sides || o.corners || o.wedges) o.faces = o.edges = true;
  if (o.corners) o.wedges = true;
  if (o.pt == Partitioner_type::METIS && !TIE) o.faces = true;
  int nc = t.cn.size();
  bool ghost = TIE ? (nt + req) & 1 : sv_concretize(sv_int("last-cell-is-a-ghost", 0, 1));
  for (int c = 0; c < nc; c++) o.ctype.push_back(ghost && c == nc - 1 ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED);
  TestMesh m(t, o);
  check_cover(m, nt);
  auto const& tiles = m.tiles();
  auto around = [&](IL const& in) { IL r = in; for (int c : in) for (int n : t.cn[c]) for (int d : m.nodecells[n]) if (!has(r, d)) r.push_back(d); return r; };
  std::vector<IL> own, all;
  for (auto const& tl : tiles) {
    IL ow = tile_owned(*tl, Entity_kind::CELL), want = ow;
    for (int i = 0; i < halo; i++) want = around(want);
    IL gh = tile_ghost(*tl, Entity_kind::CELL), al = tile_all(*tl, Entity_kind::CELL);
    sv_check(dupfree(al), "cells-listed-once");
    sv_check(al.size() == want.size() && sameset(al, want), "halo-depth");
    IL j = ow; j.insert(j.end(), gh.begin(), gh.end());
    sv_check(j == al, "owned-then-ghost-cells");
    own.push_back(ow); all.push_back(al);
  }
  auto parts = [&](Entity_kind k, int c) {
    IL l;
    if (k == Entity_kind::NODE) l = t.cn[c];
    else if (k == Entity_kind::FACE) l = m.cfl[c];
    else if (k == Entity_kind::EDGE) l = m.ce[c];
    else if (k == Entity_kind::SIDE) m.cell_get_sides(c, &l);
    else if (k == Entity_kind::WEDGE) m.cell_get_wedges(c, &l);
    else m.cell_get_corners(c, &l);
    return l;
  };
  auto master = [&](Entity_kind k, int e) {
    return k == Entity_kind::NODE ? m.master_tile_ID_of_node(e) : k == Entity_kind::FACE ? m.master_tile_ID_of_face(e) : k == Entity_kind::EDGE ? m.master_tile_ID_of_edge(e)
         : k == Entity_kind::SIDE ? m.master_tile_ID_of_side(e) : k == Entity_kind::WEDGE ? m.master_tile_ID_of_wedge(e) : m.master_tile_ID_of_corner(e);
  };
  struct { Entity_kind k; bool on; } K[6] = {{Entity_kind::NODE, true}, {Entity_kind::FACE, o.faces}, {Entity_kind::EDGE, o.edges}, {Entity_kind::SIDE, o.sides}, {Entity_kind::WEDGE, o.wedges}, {Entity_kind::CORNER, o.corners}};
  for (auto& q : K) {
    if (!q.on) continue;
    int ne = m.num_entities(q.k, Entity_type::ALL);
    std::vector<int> owner(ne, -1);
    std::vector<bool> live(ne, false);
    for (size_t i = 0; i < tiles.size(); i++) {
      IL ow = tile_owned(*tiles[i], q.k), gh = tile_ghost(*tiles[i], q.k), al = tile_all(*tiles[i], q.k);
      IL mine, any;
      for (int c : own[i]) for (int e : parts(q.k, c)) if (!has(mine, e)) mine.push_back(e);
      for (int c : all[i]) for (int e : parts(q.k, c)) if (!has(any, e)) any.push_back(e);
      IL j = ow; j.insert(j.end(), gh.begin(), gh.end());
      sv_check(j == al && dupfree(al), "owned-then-ghost-entities-once");
      sv_check(al.size() == any.size() && sameset(al, any), "entities-of-the-cells-of-the-tile");
      sv_check(subset(ow, mine), "owned-entity-belongs-to-an-owned-cell");
      for (int e : ow) { sv_check(owner[e] == -1, "owned-by-one-tile"); owner[e] = i; }
      for (int e : mine) live[e] = true;
      sv_check((size_t)tiles[i]->num_entities(q.k, Entity_type::PARALLEL_OWNED) == ow.size() && (size_t)tiles[i]->num_entities(q.k, Entity_type::PARALLEL_GHOST) == gh.size() && (size_t)tiles[i]->num_entities(q.k, Entity_type::ALL) == al.size(), "entity-counts");
    }
    for (int e = 0; e < ne; e++) {
      sv_check((owner[e] != -1) == live[e], "each-entity-has-an-owner");
      sv_check(master(q.k, e) == owner[e], "master-tile");
    }
  }
  sv_cover(req == 0 ? "faces" : req == 1 ? "everything" : req == 2 ? "sides" : req == 3 ? "corners" : req == 4 ? "edges" : "nothing");
}
