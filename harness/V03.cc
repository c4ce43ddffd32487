// Materials, their cell sets and the material lists of cells.
//@ sources: state mesh geom err
//@ bounds: a row of 5 cells (three owned, one ghost, one boundary ghost) with two tiles, a mesh set and a region; histories of OPS operations from the empty state, or of one less from a state with three or four materials: adding a material of one of four names (two new ones, the mesh set's, the region's) with one of LISTS lists of cells (any order, repetitions, ghosts), removing a material by index or by name (also ones that are not there, and adding it again later), adding such a list of cells to a material; everything is compared with a model after every operation. (Removing single cells from a material is refused by the library: not implemented.)
//@ bounds_quick: OPS=3, LISTS=4 (the last operation: all 10)
//@ bounds_thorough: OPS=4, LISTS=4 (the last operation: all 10)
//@ quick: -DOPS=3 -DLISTS=4
//@ thorough: -DOPS=4 -DLISTS=4
#include "sv.h"
#include "matstate.hh"
static void compare(World const& w) {
  State& S = *w.S;
  int n = w.mats.size();
  sv_check(S.num_materials() == n, "number-of-materials");
  if (S.num_materials() != n) sv_end();
  for (int m = 0; m < n; m++) {
    sv_check(S.material_name(m) == w.mats[m].name && S.material_index_by_name(w.mats[m].name) == m, "name-and-index");
    auto s = S.material_set(m);
    sv_check(s && s->name() == w.mats[m].name && s->kind() == Entity_kind::CELL && S.material_set_by_name(w.mats[m].name) == s, "set-of-a-material");
    auto c = w.cells(m);
    sv_check(S.num_material_cells(m) == (int)c.size() && S.material_cells(m).size() == c.size() && sameset(S.material_cells(m), c), "cells-of-a-material");
    sv_check(sameset(s->entities<Entity_type::PARALLEL_OWNED>(), w.mats[m].own) && sameset(s->entities<Entity_type::PARALLEL_GHOST>(), w.mats[m].gh) && s->entities().size() == c.size() && sameset(s->entities(), c), "owned-and-ghost-cells");
    for (int i = 0; i < NC; i++) {
      int at = S.cell_index_in_material(i, m);
      sv_check((at >= 0) == w.in(m, i) && at < (int)c.size(), "cell-in-a-material");
      if (at >= 0 && at < (int)S.material_cells(m).size()) sv_check(S.material_cells(m)[at] == i, "index-of-a-cell");
    }
  }
  for (int i = 0; i < NC; i++) {
    std::vector<int> l;
    for (int m = 0; m < n; m++) if (w.in(m, i)) l.push_back(m);
    sv_check(S.num_cell_materials(i) == (int)l.size(), "number-of-materials-of-a-cell");
    auto const& g = S.cell_materials(i);
    sv_check(g.size() == l.size() && sameset(g, l), "materials-of-a-cell");
  }
  for (int k = 0; k < 4; k++) if (w.index(MAT[k]) < 0) sv_check(S.material_index_by_name(MAT[k]) == -1 && !S.material_set_by_name(MAT[k]), "absent-material");
  sv_check(S.num_material_cells(n) == 0 && S.material_cells(n).empty(), "no-such-material");
}
extern "C" void sv_main() {
  World w;
  compare(w);
  // from the empty state, or from three or four materials (one operation less)
  int start = sv_concretize(sv_int("start", 0, 2));
  if (start) {
    w.add(1, {0, 2}); w.add(0, {1, 0}); w.add(2, {1}); if (start == 2) w.add(3, {});
    compare(w);
  }
  for (int i = start ? 1 : 0; i < OPS; i++) {
    int nm = w.mats.size();
    int op = sv_concretize(sv_int("op", 0, 2));
    int lists = i == OPS - 1 ? NL : LISTS;
    if (op == 0) { int n = sv_concretize(sv_int("name", 0, 3)); w.add(n, LIST[sv_concretize(sv_int("list", 0, lists - 1))]); }
    else if (op == 1) { int m = sv_concretize(sv_int("material", 0, nm)); w.rem(m, sv_concretize(sv_int("by-name", 0, 1))); }
    else { sv_assume(nm > 0); int m = sv_concretize(sv_int("material", 0, nm - 1)); w.addcells(m, LIST[sv_concretize(sv_int("list", 0, lists - 1))]); }
    compare(w);
  }
  sv_cover(w.mats.size() > 1 ? "several" : "few"); sv_cover(start == 0 ? "from-nothing" : start == 1 ? "from-three" : "from-four");
}
