// Values of multi-material fields.
//@ sources: state mesh geom err
//@ bounds: the world of V03 (row of 5 cells, three owned, one ghost, one boundary ghost; a mesh set and a region to make materials of); two or three initial materials with one of LISTS lists of cells, a multi-material field of doubles on the mesh and one of ints on a tile (created empty, with an arbitrary constant or from an array of arbitrary values in either layout, before or after the second material), then histories of OPS operations from: adding a material (one of four names and a list), removing one, adding cells to one, writing an arbitrary value at a material and cell; then a copy and a second handle
//@ bounds_quick: OPS=2, LISTS=3
//@ bounds_thorough: OPS=3, LISTS=4
//@ quick: -DOPS=2 -DLISTS=3
//@ thorough: -DOPS=3 -DLISTS=4
#include "sv.h"
#include "matstate.hh"
typedef MultiStateVector<double> MV;
typedef MultiStateVector<int, MeshTile> TV;
struct Val { bool known; double d; int i; };
struct Model { std::string name; Val v[NC]; };
static std::vector<Model> mod;
static World* W;
static MV* F;
static TV* T;
template <class V> bool throws(V& v, int a, int b, Data_layout l) {
  try { v(a, b, l); } catch (std::exception&) { return true; }
  return false;
}
static void follow() {                                   // the model's materials follow the world's
  std::vector<Model> n;
  for (auto const& m : W->mats) {
    Model x; x.name = m.name;
    for (int c = 0; c < NC; c++) x.v[c].known = false;
    for (auto const& o : mod) if (o.name == m.name) x = o;
    n.push_back(x);
  }
  mod = n;
}
static void compare(MV& f, TV& t) {
  MV const& cf = f; TV const& ct = t;
  sv_check(f.size() == W->mats.size() && t.size() == W->mats.size(), "number-of-materials");
  if (f.size() != W->mats.size() || t.size() != W->mats.size()) sv_end();
  for (int m = 0; m < (int)mod.size(); m++) {
    auto cells = W->cells(m);
    sv_check(f.size(m) == cells.size() && t.size(m) == cells.size() && f.get_matdata(m).size() == cells.size() && f.end(m) - f.begin(m) == (long)cells.size() && cf.cend(m) - cf.cbegin(m) == (long)cells.size(), "extent-follows-the-material");
    for (int c = 0; c < NC; c++) {
      if (!W->in(m, c)) { sv_check(throws(f, m, c, Data_layout::MATERIAL_CENTRIC) && throws(f, c, m, Data_layout::CELL_CENTRIC), "absent-entry-refused"); continue; }
      Val const& v = mod[m].v[c];
      if (!v.known) continue;
      int at = W->S->cell_index_in_material(c, m);
      sv_check((f(m, c) == v.d) & (f(c, m, Data_layout::CELL_CENTRIC) == v.d) & (cf(m, c) == v.d) & (cf(c, m, Data_layout::CELL_CENTRIC) == v.d), "value-of-a-material-in-a-cell");
      sv_check((t(m, c) == v.i) & (ct(c, m, Data_layout::CELL_CENTRIC) == v.i), "value-on-a-tile");
      if (at >= 0 && at < (int)cells.size()) sv_check((f.get_matdata(m)[at] == v.d) & (f.get_raw_data(m)[at] == v.d) & (cf.get_raw_data(m)[at] == v.d) & (*(f.begin(m) + at) == v.d) & (*(cf.cbegin(m) + at) == v.d) & (cf.get_matdata(m)[at] == v.d), "value-in-the-array-of-the-material");
    }
  }
}
static int pickl(const char* n, int k) { return sv_concretize(sv_int(n, 0, k - 1)); }
extern "C" void sv_main() {
  World w; W = &w;
  auto S = w.S;
  std::shared_ptr<Mesh> dm = w.mesh;
  auto tile = w.mesh->tiles()[1];
  static const int FIRST[4] = {5, 2, 8, 6};
  w.add(0, LIST[FIRST[pickl("first", LISTS)]]);
  bool early = sv_concretize(sv_int("second-material-later", 0, 1));
  if (!early) w.add(1, LIST[2]);
  int how = sv_concretize(sv_int("created", 0, 3));
  if (how == 1 || how == 3) w.add(3, LIST[3]);
  follow();
  double c0 = sv_grid("constant", -3000, 3000, 3);
  int i0 = sv_int("constant-int", -30000, 30000);
  std::vector<std::vector<double>> A(NC, std::vector<double>(NC, 0.0));
  std::vector<std::vector<int>> I(NC, std::vector<int>(NC, 0));
  int nm = mod.size();
  for (int m = 0; m < nm; m++) for (int c = 0; c < NC; c++) {
    double v = how < 2 ? c0 : c == 1 || c == 3 ? sv_grid("entry", -3000, 3000, 3) : 10 * m + c + 0.5;
    int i = how < 2 ? i0 : c == 2 ? sv_int("entry-int", -30000, 30000) : 100 * m + c;
    if (how > 0 && w.in(m, c)) { mod[m].v[c].known = true; mod[m].v[c].d = v; mod[m].v[c].i = i; }
    if (how == 2) { A[c][m] = v; I[c][m] = i; } else { A[m][c] = v; I[m][c] = i; }
  }
  if (how == 0) { F = &S->add<double, Mesh, MultiStateVector>("f", dm, Entity_kind::CELL, Entity_type::ALL); T = &S->add<int, MeshTile, MultiStateVector>("t", tile, Entity_kind::CELL, Entity_type::ALL); }
  else if (how == 1) { F = &S->add<double, Mesh, MultiStateVector>("f", dm, Entity_kind::CELL, Entity_type::ALL, c0); T = &S->add<int, MeshTile, MultiStateVector>("t", tile, Entity_kind::CELL, Entity_type::ALL, i0); }
  else {
    double const* p[NC]; int const* q[NC];
    for (int i = 0; i < NC; i++) { p[i] = A[i].data(); q[i] = I[i].data(); }
    Data_layout l = how == 2 ? Data_layout::CELL_CENTRIC : Data_layout::MATERIAL_CENTRIC;
    F = &S->add("f", dm, Entity_kind::CELL, Entity_type::ALL, l, (double const* const*)p);
    T = &S->add("t", tile, Entity_kind::CELL, Entity_type::ALL, l, (int const* const*)q);
  }
  sv_check(F->type() == StateVector_type::MULTIVAL && F->name() == "f" && F->domain() == dm && T->domain() == tile && F->entity_kind() == Entity_kind::CELL, "attributes");
  compare(*F, *T);
  if (early) { w.add(1, LIST[2]); follow(); compare(*F, *T); }
  for (int i = 0; i < OPS; i++) {
    int n = w.mats.size(), op = sv_concretize(sv_int("op", 0, 3));
    if (op == 0) { int k = sv_concretize(sv_int("name", 0, 3)); w.add(k, LIST[k + 2 * pickl("list", 2)]); }
    else if (op == 1) { int m = sv_concretize(sv_int("material", 0, n)); w.rem(m, m & 1); }
    else if (op == 2) { sv_assume(n > 0); int m = sv_concretize(sv_int("material", 0, n - 1)); w.addcells(m, LIST[FIRST[pickl("cells", 3)]]); }
    else {
      sv_assume(n > 0);
      int m = sv_concretize(sv_int("material", 0, n - 1)), c = sv_concretize(sv_int("cell", 0, NC - 1));
      sv_assume(w.in(m, c));
      double v = sv_grid("written", -3000, 3000, 3);
      int iv = sv_int("written-int", -30000, 30000);
      if (i & 1) { (*F)(m, c) = v; (*T)(c, m, Data_layout::CELL_CENTRIC) = iv; } else { (*F)(c, m, Data_layout::CELL_CENTRIC) = v; (*T)(m, c) = iv; }
      mod[m].v[c].known = true; mod[m].v[c].d = v; mod[m].v[c].i = iv;
    }
    follow();
    compare(*F, *T);
  }
  // copies and handles
  MV cp(*F), asg; asg = *F;
  TV tcp(*T), tasg; tasg = *T;
  std::shared_ptr<MV> sp;
  sv_check(S->get("f", dm, &sp) && sp.get() == F, "get");
  compare(cp, tcp); compare(asg, tasg);
  if (w.mats.size() && w.cells(0).size()) {
    int c = w.cells(0)[0];
    Val old = mod[0].v[c];
    cp(0, c) = 11; tcp(0, c) = 12;
    compare(*F, *T);
    sv_check(!old.known || ((*F)(0, c) == old.d && (*T)(0, c) == old.i), "copy-is-independent");
    asg(0, c) = 21; tasg(0, c) = 22;
    mod[0].v[c].known = true; mod[0].v[c].d = 21; mod[0].v[c].i = 22;
    compare(*F, *T);
    sv_check(cp(0, c) == 11 && tcp(0, c) == 12, "copy-unaffected");
  }
  int z = w.mats.size();
  F->assign(7.5);
  for (int m = 0; m < z; m++) for (int c : w.cells(m)) sv_check((*F)(m, c) == 7.5, "assigned");
  sv_cover(z > 1 ? "several" : "few");
}
