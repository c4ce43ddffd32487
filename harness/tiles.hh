// Lists of a tile by kind and type.
#pragma once
#include "MeshTile.hh"
template <Jali::Entity_type T> inline IL tile_list(Jali::MeshTile const& t, Jali::Entity_kind k) {
  using K = Jali::Entity_kind;
  if (k == K::NODE) return t.nodes<T>();
  if (k == K::EDGE) return t.edges<T>();
  if (k == K::FACE) return t.faces<T>();
  if (k == K::SIDE) return t.sides<T>();
  if (k == K::WEDGE) return t.wedges<T>();
  if (k == K::CORNER) return t.corners<T>();
  return t.cells<T>();
}
inline IL tile_owned(Jali::MeshTile const& t, Jali::Entity_kind k) { return tile_list<Jali::Entity_type::PARALLEL_OWNED>(t, k); }
inline IL tile_ghost(Jali::MeshTile const& t, Jali::Entity_kind k) { return tile_list<Jali::Entity_type::PARALLEL_GHOST>(t, k); }
inline IL tile_all(Jali::MeshTile const& t, Jali::Entity_kind k) { return tile_list<Jali::Entity_type::ALL>(t, k); }
// each owned cell of a mesh in exactly one tile
inline void check_cover(Jali::Mesh& m, int ntiles) {
  using Jali::Entity_type;
  int n = m.num_cells<Entity_type::PARALLEL_OWNED>(), all = m.num_cells<Entity_type::ALL>();
  sv_check((int)m.tiles().size() <= ntiles && m.num_tiles() == (int)m.tiles().size(), "number-of-tiles");
  std::vector<int> hits(all, 0), at(all, -1);
  int id = 0;
  for (auto const& t : m.tiles()) {
    sv_check(t->ID() == id++, "tile-id");
    IL l = tile_owned(*t, Jali::Entity_kind::CELL);
    sv_check((int)t->num_cells<Entity_type::PARALLEL_OWNED>() == (int)l.size(), "count-of-owned-cells");
    for (int c : l) {
      bool ok = c >= 0 && c < all;
      sv_check(ok, "cell-of-the-mesh");
      if (ok) { hits[c]++; at[c] = t->ID(); }
    }
  }
  for (int c = 0; c < all; c++) {
    bool own = m.entity_get_type(Jali::Entity_kind::CELL, c) == Entity_type::PARALLEL_OWNED;
    sv_check(hits[c] == (own ? 1 : 0), "each-owned-cell-in-exactly-one-tile");
    sv_check(m.master_tile_ID_of_cell(c) == (own ? at[c] : -1), "master-tile-of-cell");
  }
  (void)n;
}
