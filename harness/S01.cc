// Algebra of mesh sets.
//@ sources: mesh geom err
//@ bounds: one to three sets (also the same set twice) of cells or nodes of a mesh with 3 owned, 2 ghost and (cells) 1 boundary ghost entities, with and without index map, each with any members in ascending or descending order; union, intersection, difference and complement, temporary or added to the mesh
//@ bounds_quick: two sets with any members, the third one of 2; index map with cells only
//@ bounds_thorough: three sets with any members
//@ quick: -DTHIRD=2
//@ thorough: -DTHIRD=32
#include "sv.h"
#include "tmesh.hh"
using SetPtr = std::shared_ptr<Jali::MeshSet>;
struct Spec { SetPtr s; IL ow, gh; std::string name; };
static Spec build(TestMesh& m, Entity_kind k, char const* name, int mask, bool down, bool map) {
  Spec p; p.name = name;
  for (int i = 0; i < 5; i++) { int e = down ? 4 - i : i; if (mask >> e & 1) (e < 3 ? p.ow : p.gh).push_back(e); }
  p.s = Jali::make_meshset(name, m, k, p.ow, p.gh, map);
  return p;
}
extern "C" void sv_main() {
  bool nodes = sv_concretize(sv_int("nodes", 0, 1)), map = THIRD == 2 ? !nodes : sv_concretize(sv_int("index-map", 0, 1));
  int op = sv_concretize(sv_int("operation", 0, 3));
  Topo t = row({0, 1, 2, 3, 4, 5, 6});
  if (nodes) t = row({0, 1, 2, 3, 4});
  MeshOpts o; o.faces = false;
  for (int c = 0; c < (int)t.cn.size(); c++) o.ctype.push_back(c < 3 ? Entity_type::PARALLEL_OWNED : c < 5 ? Entity_type::PARALLEL_GHOST : Entity_type::BOUNDARY_GHOST);
  for (int n = 0; n < (int)t.xyz.size(); n++) o.ntype.push_back(n < 3 ? Entity_type::PARALLEL_OWNED : Entity_type::PARALLEL_GHOST);
  TestMesh m(t, o);
  Entity_kind k = nodes ? Entity_kind::NODE : Entity_kind::CELL;
  int count = sv_concretize(sv_int("operands", 1, 3));
  bool twice = count == 2 && sv_concretize(sv_int("same-set-twice", 0, 1));
  static const int C2[2] = {0x12, 0x1f};
  std::vector<Spec> in;
  int am = sv_concretize(sv_int("members-of-A", 0, 31));
  in.push_back(build(m, k, "A", am, false, map));
  if (count > 1 && !twice) in.push_back(build(m, k, "B", sv_concretize(sv_int("members-of-B", 0, 31)), true, map));
  if (count > 2) { int c = sv_concretize(sv_int("members-of-C", 0, THIRD - 1)); in.push_back(build(m, k, "C", THIRD == 2 ? C2[c] : c, false, map)); }
  bool temp = sv_concretize(sv_int("temporary", 0, 1));
  sv_assume(!(op == 3 && count == 1));                // a difference needs something to subtract
  int before = m.num_sets();
  std::vector<SetPtr> v;
  for (auto& p : in) v.push_back(p.s);
  if (twice) v.push_back(in[0].s);
  SetPtr r;
  if (op == 0) r = Jali::merge(v, temp);
  else if (op == 1) r = Jali::intersect(v, temp);
  else if (op == 2) r = Jali::complement(v, temp);
  else r = Jali::subtract(v[0], std::vector<SetPtr>(v.begin() + 1, v.end()), temp);
  IL ow, gh;
  for (int e = 0; e < 5; e++) {
    int n = 0;
    bool first = has(in[0].ow, e) || has(in[0].gh, e);
    for (auto& p : in) n += has(p.ow, e) || has(p.gh, e);
    bool want = op == 0 ? n > 0 : op == 1 ? n == (int)in.size() : op == 2 ? n == 0 : twice ? false : first && n == 1;
    if (want) (e < 3 ? ow : gh).push_back(e);
  }
  IL po = r->entities<Entity_type::PARALLEL_OWNED>(), pg = r->entities<Entity_type::PARALLEL_GHOST>(), pa = r->entities<Entity_type::ALL>();
  sv_check(po.size() == ow.size() && sameset(po, ow), "owned-members");
  sv_check(pg.size() == gh.size() && sameset(pg, gh), "ghost-members");
  IL all = po;
  all.insert(all.end(), pg.begin(), pg.end());
  sv_check(pa == all, "owned-then-ghost");
  sv_check(r->kind() == k && &r->mesh() == &m, "kind-and-mesh");
  if (r->index_in_set(0) != -1 || map) for (int e = 0; e < 5; e++) { int at = -1; for (int i = 0; i < (int)pa.size(); i++) if (pa[i] == e) at = i; sv_check(r->index_in_set(e) == at, "index-in-set"); }
  for (auto& p : in) {
    sv_check(p.s->name() == p.name, "operand-name");
    IL x = p.ow; x.insert(x.end(), p.gh.begin(), p.gh.end());
    sv_check(p.s->entities<Entity_type::PARALLEL_OWNED>() == p.ow && p.s->entities<Entity_type::PARALLEL_GHOST>() == p.gh && p.s->entities<Entity_type::ALL>() == x, "operand-members");
    sv_check(m.find_meshset(p.name, k).get() == p.s.get(), "operand-still-found");
  }
  int after = m.num_sets();
  sv_check(temp ? after == before : after == before + 1 || r.get() == in[0].s.get(), "result-registered");
  sv_cover(op == 0 ? "union" : op == 1 ? "intersection" : op == 2 ? "complement" : "difference");
}
