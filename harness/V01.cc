// Finding the fields of a state.
//@ sources: state mesh geom err
//@ bounds: histories of ADDS additions to a state on a 2x2 grid with a ghost cell and two tiles, each of any of the 14 fields of a table (names that are prefixes of each other and the empty name; int, double and pair values; one or several values per entity; mesh and tiles; cells, nodes, faces, corners; all or owned entities), added without data, with a constant, from an array or by copying a vector; then every lookup of every field of the table and of absent ones, by iterator and by handle, with the kind and type given or left open. A field for all entities is not added after one of the same name for owned entities only (the request then names the latter)
//@ bounds_quick: ADDS=3, from 9 of the fields
//@ bounds_thorough: ADDS=3, from all 14 fields
//@ quick: -DADDS=3 -DTAB=9
//@ thorough: -DADDS=3 -DTAB=14
#include "sv.h"
#include "tmesh.hh"
#include "tiles.hh"
#include "JaliState.h"
using namespace Jali;
typedef std::array<double, 2> P2;
typedef std::shared_ptr<StateVectorBase> SP;
static std::shared_ptr<TestMesh> M;
static std::shared_ptr<State> S;
struct Desc { const char* name; int T; bool multi; int dom; Entity_kind kind; Entity_type type; };
static const Entity_type ALL = Entity_type::ALL, OWN = Entity_type::PARALLEL_OWNED;
static const Entity_kind CE = Entity_kind::CELL, NO = Entity_kind::NODE, FA = Entity_kind::FACE, CO = Entity_kind::CORNER, ANY = Entity_kind::ANY_KIND;
static const Desc D[18] = {
  {"a", 0, false, 0, CE, ALL}, {"ab", 0, false, 0, CE, ALL}, {"a", 1, false, 0, CE, ALL}, {"a", 0, false, 0, NO, ALL},
  {"a", 0, false, 1, CE, ALL}, {"a", 0, true, 0, CE, ALL}, {"a", 0, false, 0, CE, OWN}, {"a", 0, false, 2, CE, ALL}, {"b", 2, false, 0, FA, ALL},
  {"", 0, false, 0, CE, ALL}, {"a", 1, true, 0, CE, ALL}, {"a", 0, false, 0, FA, OWN}, {"ab", 1, false, 1, CO, OWN}, {"b", 0, true, 1, CE, ALL},
  {"b", 0, false, 0, CE, ALL}, {"a", 2, false, 0, CE, ALL}, {"abc", 0, false, 0, CE, ALL}, {"ab", 0, true, 0, CE, ALL}};
struct Rec { int d; StateVectorBase* p; };
static std::vector<Rec> R;
static bool match(Rec const& r, Desc const& q, int how, Entity_kind k, Entity_type t) {
  Desc const& d = D[r.d];
  if (std::string(d.name) != q.name || (k != ANY && d.kind != k) || (t != ALL && d.type != t)) return false;
  if (how >= 1 && d.dom != q.dom) return false;
  if (how >= 2 && d.multi != q.multi) return false;
  return how < 3 || d.T == q.T;
}
template <class D_> std::shared_ptr<D_> dom(int i);
template <> std::shared_ptr<Mesh> dom<Mesh>(int) { return M; }
template <> std::shared_ptr<MeshTile> dom<MeshTile>(int i) { return M->tiles()[i - 1]; }
template <class T> T val(int i);
template <> double val<double>(int i) { return i + 0.5; }
template <> int val<int>(int i) { return i + 7; }
template <> P2 val<P2>(int i) { P2 p; p[0] = i; p[1] = -i; return p; }
template <class T, class Dom, template <class, class> class Vec> struct Op {
  static SP by_array(std::string const& n, std::shared_ptr<Dom> dm, Entity_kind k, Entity_type t, int tag, UniStateVector<T, Dom>*) {
    std::vector<T> v;
    for (int i = 0; i < (int)dm->num_entities(k, t); i++) v.push_back(val<T>(tag + i));
    T* p = v.data();
    return addr(S->add(n, dm, k, t, p));
  }
  static SP by_array(std::string const& n, std::shared_ptr<Dom> dm, Entity_kind k, Entity_type t, int tag, MultiStateVector<T, Dom>*) {
    std::vector<T> v(16, val<T>(tag));
    T const* rows[16];
    for (int i = 0; i < 16; i++) rows[i] = v.data();
    return addr(S->add(n, dm, k, t, Data_layout::CELL_CENTRIC, (T const* const*)rows));
  }
  static SP by_copy(std::string const& n, std::shared_ptr<Mesh> dm, Entity_kind k, Entity_type t, int tag, UniStateVector<T, Mesh>*) {
    UniStateVector<T, Mesh> v(n, dm, nullptr, k, t, val<T>(tag));
    return addr(S->add(v));
  }
  template <class A, class B> static SP by_copy(std::string const& n, A dm, Entity_kind k, Entity_type t, int tag, B*) { return addr(S->add<T, Dom, Vec>(n, dm, k, t)); }
  static SP addr(StateVectorBase& v) { return SP(SP(), &v); }
  static SP add(Desc const& d, int how, int tag) {
    auto dm = dom<Dom>(d.dom);
    if (how == 0) return addr(S->add<T, Dom, Vec>(d.name, dm, d.kind, d.type));
    if (how == 1) return addr(S->add<T, Dom, Vec>(d.name, dm, d.kind, d.type, val<T>(tag)));
    if (how == 2) return by_array(d.name, dm, d.kind, d.type, tag, (Vec<T, Dom>*)nullptr);
    return by_copy(d.name, dm, d.kind, d.type, tag, (Vec<T, Dom>*)nullptr);
  }
  static int first(Desc const& q, int how, Entity_kind k, Entity_type t) {
    for (size_t i = 0; i < R.size(); i++) if (match(R[i], q, how, k, t)) return i;
    return R.size();
  }
  static void look(Desc const& q) {
    auto dm = dom<Dom>(q.dom);
    State const& cs = *S;
    const StateVector_type VT = std::is_same<Vec<T, Dom>, MultiStateVector<T, Dom>>::value ? StateVector_type::MULTIVAL : StateVector_type::UNIVAL;
    for (int w = 0; w < 4; w++) {
      Entity_kind k = w & 1 ? ANY : q.kind;
      Entity_type t = w & 2 ? ALL : q.type;
      sv_check(S->find(q.name, k, t) - S->begin() == first(q, 0, k, t) && cs.find(q.name, k, t) - cs.cbegin() == first(q, 0, k, t), "find-by-name");
      sv_check(S->find(q.name, dm, k, t) - S->begin() == first(q, 1, k, t) && cs.find(q.name, dm, k, t) - cs.cbegin() == first(q, 1, k, t), "find-on-a-domain");
      sv_check(S->template find<Dom, VT>(q.name, dm, k, t) - S->begin() == first(q, 2, k, t) && cs.template find<Dom, VT>(q.name, dm, k, t) - cs.cbegin() == first(q, 2, k, t), "find-by-multiplicity");
      int f = first(q, 3, k, t);
      auto it = S->template find<T, Dom, Vec>(q.name, dm, k, t);
      auto ct = cs.template find<T, Dom, Vec>(q.name, dm, k, t);
      sv_check(it - S->begin() == f && ct - cs.cbegin() == f, "find-by-data-type");
      bool there = f < (int)R.size();
      if (there) sv_check((*it).get() == R[f].p, "right-field");
      std::shared_ptr<Vec<T, Dom>> sp;
      sv_check(S->get(q.name, dm, k, t, &sp) == there && sp.get() == (there ? R[f].p : nullptr), "shared-handle");
      Vec<T, Dom> v;
      v = Vec<T, Dom>("unset", dm, S, CE, ALL);
      sv_check(S->get(q.name, dm, k, t, &v) == there, "handle");
      sv_check(v.name() == (there ? D[R[f].d].name : "unset"), "handle-name");
      if (there) sv_check(v.entity_kind() == D[R[f].d].kind && v.entity_type() == D[R[f].d].type && v.domain() == dm, "handle-attributes");
    }
    std::shared_ptr<Vec<T, Dom>> sp;
    int f = first(q, 3, ANY, ALL);
    sv_check(S->get(q.name, dm, &sp) == (f < (int)R.size()) && sp.get() == (f < (int)R.size() ? R[f].p : nullptr), "shared-handle-on-a-domain");
  }
};
static SP add(int i, int how, int tag) {
  Desc const& d = D[i];
  if (d.multi) {
    if (d.dom) return Op<double, MeshTile, MultiStateVector>::add(d, how, tag);
    return d.T == 0 ? Op<double, Mesh, MultiStateVector>::add(d, how, tag) : Op<int, Mesh, MultiStateVector>::add(d, how, tag);
  }
  if (d.dom) return d.T == 0 ? Op<double, MeshTile, UniStateVector>::add(d, how, tag) : Op<int, MeshTile, UniStateVector>::add(d, how, tag);
  return d.T == 0 ? Op<double, Mesh, UniStateVector>::add(d, how, tag) : d.T == 1 ? Op<int, Mesh, UniStateVector>::add(d, how, tag) : Op<P2, Mesh, UniStateVector>::add(d, how, tag);
}
static void look(Desc const& d) {
  if (d.multi) {
    if (d.dom) Op<double, MeshTile, MultiStateVector>::look(d);
    else if (d.T == 0) Op<double, Mesh, MultiStateVector>::look(d); else Op<int, Mesh, MultiStateVector>::look(d);
  } else if (d.dom) { if (d.T == 0) Op<double, MeshTile, UniStateVector>::look(d); else Op<int, MeshTile, UniStateVector>::look(d); }
  else if (d.T == 0) Op<double, Mesh, UniStateVector>::look(d); else if (d.T == 1) Op<int, Mesh, UniStateVector>::look(d); else Op<P2, Mesh, UniStateVector>::look(d);
}
extern "C" void sv_main() {
  Topo t = grid2(2, 2);
  MeshOpts o;
  o.corners = true; o.ntiles = 2; o.pt = Partitioner_type::INDEX;
  o.ctype = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST};
  M = std::make_shared<TestMesh>(t, o);
  S = State::create(M);
  S->add_material("m", std::vector<int>{1, 2});
  std::vector<SP> keep;
  for (int n = 0; n < ADDS; n++) {
    int d = sv_concretize(sv_int("field", 0, TAB - 1));
    int how = (n + d) % 4;
    if (n == 0) how = sv_concretize(sv_int("how", 0, 3));
    bool clash = false;
    for (auto const& r : R) { Desc e = D[r.d]; clash = clash | (D[d].type == ALL && e.type != ALL && std::string(e.name) == D[d].name && e.kind == D[d].kind && e.dom == D[d].dom && e.T == D[d].T && e.multi == D[d].multi); }
    sv_assume(!clash);
    int at = -1;
    for (size_t i = 0; i < R.size(); i++) if (R[i].d == d) at = i;
    SP p = add(d, how, 100 * n);
    if (at >= 0) sv_check(p.get() == R[at].p, "existing-field-returned");
    else { for (auto const& r : R) sv_check(r.p != p.get(), "new-field"); R.push_back({d, p.get()}); }
    sv_check(S->size() == (int)R.size(), "number-of-fields");
    sv_check(p->name() == D[d].name && p->entity_kind() == D[d].kind && p->entity_type() == D[d].type && (p->type() == StateVector_type::MULTIVAL) == D[d].multi, "attributes-of-the-field");
  }
  for (size_t i = 0; i < R.size(); i++) sv_check((*S)[i].get() == R[i].p && (S->begin() + i)->get() == R[i].p, "order-of-fields");
  sv_check(S->end() - S->begin() == (int)R.size() && S->cend() - S->cbegin() == (int)R.size() && S->names_end() - S->names_begin() == (int)R.size(), "iteration-over-all");
  for (size_t i = 0; i < R.size(); i++) sv_check(*(S->names_begin() + i) == D[R[i].d].name, "names-in-order");
  static const Entity_kind K[7] = {CE, NO, FA, CO, Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE};
  for (int k = 0; k < 7; k++) {
    auto it = S->entity_begin(K[k]);
    auto nt = S->names_entity_begin(K[k]);
    for (size_t i = 0; i < R.size(); i++) if (D[R[i].d].kind == K[k]) {
      sv_check(it != S->entity_end(K[k]) && nt != S->names_entity_end(K[k]), "fields-of-a-kind");
      if (it == S->entity_end(K[k]) || nt == S->names_entity_end(K[k])) break;
      sv_check((*it).get() == R[i].p, "fields-of-a-kind");
      sv_check(*nt == D[R[i].d].name, "names-of-a-kind");
      ++it; ++nt;
    }
    sv_check(it == S->entity_end(K[k]) && nt == S->names_entity_end(K[k]), "no-more-fields-of-a-kind");
  }
  for (int i = 0; i < 18; i++) look(D[i]);
  sv_cover("looked-up");
}
