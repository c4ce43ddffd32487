// Exporting the fields of a state to a mesh and importing them into another.
//@ sources: state mesh geom err
//@ bounds: a 2x2 grid or a pair of hexahedra (2D: vectors of 2 and tensors of 3 numbers, 3D: of 3 and 6), with or without a ghost cell, in a mesh framework that stores such fields on nodes, faces and cells; states with FIELDS fields, each any of a table of 20 (int, double, pair, triple, six numbers, and types no mesh stores; on nodes, faces, cells and other kinds; for all or only owned entities; on tiles; multi-material; names that occur twice), with arbitrary values in two entries and distinct ones elsewhere; exported once, or twice with values changed in between, then imported into a new state, also one that has a field of such a name already
//@ bounds_quick: FIELDS=2
//@ bounds_thorough: FIELDS=3
//@ quick: -DFIELDS=2
//@ thorough: -DFIELDS=3
#include "sv.h"
#include "tmesh.hh"
#include "tiles.hh"
#include "JaliState.h"
using namespace Jali;
typedef std::array<double, 2> A2;
typedef std::array<double, 3> A3;
typedef std::array<double, 6> A6;
typedef std::array<double, 4> A4;
static std::shared_ptr<TestMesh> M;
static const Entity_type ALL = Entity_type::ALL, OWN = Entity_type::PARALLEL_OWNED;
static const Entity_kind CE = Entity_kind::CELL, NO = Entity_kind::NODE, FA = Entity_kind::FACE, CO = Entity_kind::CORNER, WE = Entity_kind::WEDGE, ED = Entity_kind::EDGE;
struct Desc { const char* name; int T; int dom; Entity_kind kind; Entity_type type; };   // T: 0 int 1 double 2 3 6 arrays 7 float 8 array of 4 9 multi-material
static const Desc D[20] = {
  {"p", 0, 0, CE, ALL}, {"q", 1, 0, NO, ALL}, {"r", 2, 0, CE, ALL}, {"s", 3, 0, FA, ALL}, {"t", 6, 0, NO, ALL},
  {"u", 0, 0, CO, ALL}, {"v", 7, 0, CE, ALL}, {"w", 1, 1, CE, ALL}, {"x", 9, 0, CE, ALL}, {"y", 1, 0, CE, OWN},
  {"p", 1, 0, CE, ALL}, {"q", 1, 0, CE, ALL}, {"p", 0, 1, CE, ALL}, {"z", 8, 0, NO, ALL}, {"u", 0, 0, FA, ALL},
  {"", 1, 0, CE, ALL}, {"e", 1, 0, ED, ALL}, {"g", 3, 0, CE, ALL}, {"h", 6, 0, CE, ALL}, {"i", 0, 2, NO, OWN}};
static void set(int& x, double v) { x = (int)v; }
static void set(double& x, double v) { x = v; }
static void set(float& x, double v) { x = 1; }
template <size_t N> void set(std::array<double, N>& x, double v) { for (size_t i = 0; i < N; i++) x[i] = v + 100 * i; }
static bool eq(int a, int b) { return a == b; }
static bool eq(float a, float b) { return a == b; }
static bool eq(double a, double b) { return a == b; }
template <size_t N> bool eq(std::array<double, N> const& a, std::array<double, N> const& b) { bool r = true; for (size_t i = 0; i < N; i++) r = r & (a[i] == b[i]); return r; }
template <class T> struct Sym { static void go(T& x) { set(x, sv_grid("value", -3000, 3000, 0)); } };
template <> struct Sym<int> { static void go(int& x) { x = sv_int("value", -30000, 30000); } };
template <> struct Sym<float> { static void go(float& x) { x = 2; } };
template <class T, class Dom> void fill(UniStateVector<T, Dom>& v, int seed) {
  int n = v.size();
  for (int i = 0; i < n; i++) if (i == n - 1 || i == n / 2) Sym<T>::go(v[i]); else set(v[i], seed + 7 * i);
}
// one field of the state: how to make it, change it, and what is expected afterwards
struct F {
  Desc d; int n;
  bool storable;                       // by itself
  std::shared_ptr<StateVectorBase> v;
  virtual ~F() {}
  virtual void change(int seed) = 0;
  virtual bool came_back(State& s) = 0;   // s has it, with these values
  virtual bool field_in(State& s) = 0;    // s has a field of that name, kind and type of value
};
template <class T, class Dom> struct FU : F {
  UniStateVector<T, Dom>* u;
  std::vector<T> exported;
  void change(int seed) { fill(*u, seed); }
  bool field_in(State& s) {
    std::shared_ptr<Mesh> m = M;
    std::shared_ptr<UniStateVector<T, Mesh>> p;
    return s.get(d.name, m, d.kind, ALL, &p);
  }
  bool came_back(State& s) {
    std::shared_ptr<Mesh> m = M;
    std::shared_ptr<UniStateVector<T, Mesh>> p;
    if (!s.get(d.name, m, d.kind, ALL, &p) || (int)p->size() != (int)M->num_entities(d.kind, ALL) || p->size() != u->size()) return false;
    bool r = p->data_type() == typeid(T) && p->entity_kind() == d.kind && p->entity_type() == ALL && p->name() == d.name && p->get_raw_data() != u->get_raw_data();
    for (size_t i = 0; i < p->size(); i++) r = r & eq((*p)[i], (*u)[i]);
    return r;
  }
};
struct FM : F {
  MultiStateVector<double>* u;
  void change(int seed) { u->assign(seed); }
  bool field_in(State& s) { return s.find(d.name) != s.end(); }
  bool came_back(State&) { return false; }
};
template <class T, class Dom> F* uni(State& S, Desc const& d, std::shared_ptr<Dom> dm) {
  auto f = new FU<T, Dom>;
  f->d = d;
  f->u = &S.template add<T, Dom, UniStateVector>(d.name, dm, d.kind, d.type);
  return f;
}
static F* make(State& S, Desc const& d) {
  F* f;
  std::shared_ptr<Mesh> m = M;
  if (d.T == 9) { auto g = new FM; g->d = d; g->u = &S.add<double, Mesh, MultiStateVector>(d.name, m, d.kind, d.type); f = g; }
  else if (d.dom) { auto tl = M->tiles()[d.dom - 1]; f = d.T == 0 ? uni<int>(S, d, tl) : uni<double>(S, d, tl); }
  else switch (d.T) {
    case 0: f = uni<int>(S, d, m); break;
    case 1: f = uni<double>(S, d, m); break;
    case 2: f = uni<A2>(S, d, m); break;
    case 3: f = uni<A3>(S, d, m); break;
    case 6: f = uni<A6>(S, d, m); break;
    case 7: f = uni<float>(S, d, m); break;
    default: f = uni<A4>(S, d, m);
  }
  int sd = M->t.sd;
  f->n = M->num_entities(d.kind, d.type);
  bool all = f->n == (int)M->num_entities(d.kind, ALL);
  f->storable = d.dom == 0 && all && (d.kind == CE || d.kind == NO || d.kind == FA) && (d.T < 2 || (d.T < 7 && (d.T == sd || d.T == sd * (sd + 1) / 2)));
  return f;
}
extern "C" void sv_main() {
  bool two = sv_concretize(sv_int("2D", 0, 1));
  MeshOpts o;
  o.edges = o.sides = o.wedges = o.corners = true; o.ntiles = 2; o.pt = Partitioner_type::INDEX;
  Topo t = two ? grid2(2, 2) : hex2();
  bool ghost = sv_concretize(sv_int("with-a-ghost", 0, 1));
  int nc = t.cn.size();
  for (int c = 0; c < nc; c++) o.ctype.push_back(ghost && c == nc - 1 ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED);
  M = std::make_shared<TestMesh>(t, o);
  auto S = State::create(M);
  S->add_material("m", std::vector<int>{0, 1});
  std::vector<F*> fs;
  std::vector<bool> in;                                // it is (one of) the fields that the mesh ends up with
  int prev = -1;
  for (int i = 0; i < FIELDS; i++) {
    int k = sv_concretize(sv_int("field", 0, 19));
    for (auto f : fs) sv_assume(f->d.name != D[k].name || f->d.T != D[k].T || f->d.dom != D[k].dom || f->d.kind != D[k].kind);
    F* f = make(*S, D[k]);
    f->change(1000 * (i + 1));
    bool keep = f->storable;
    for (size_t j = 0; j < fs.size(); j++) if (std::string(fs[j]->d.name) == f->d.name && in[j]) keep = false;   // the name is taken
    fs.push_back(f); in.push_back(keep);
  }
  S->export_to_mesh();
  if (sv_concretize(sv_int("again", 0, 1))) { for (size_t i = 0; i < fs.size(); i++) fs[i]->change(77 * (i + 1)); S->export_to_mesh(); }
  int stored = 0;
  for (bool b : in) stored += b;
  sv_check((int)M->fields.size() == stored, "number-of-fields-on-the-mesh");
  auto S2 = State::create(M);
  std::shared_ptr<Mesh> dm = M;
  UniStateVector<double>* old = nullptr;
  bool had = sv_concretize(sv_int("has-one-already", 0, 1));
  if (had) { old = &S2->add<double, Mesh, UniStateVector>("q", dm, NO, ALL, -5.0); }
  S2->init_from_mesh();
  bool clash = false;
  for (size_t i = 0; i < fs.size(); i++) {
    bool mine = had && in[i] && fs[i]->d.T == 1 && fs[i]->d.kind == NO && std::string(fs[i]->d.name) == "q";
    clash = clash || mine;
    if (mine) continue;
    if (in[i]) sv_check(fs[i]->came_back(*S2), "field-came-back");
    else if (!(had && std::string(fs[i]->d.name) == "q")) { bool other = false; for (size_t j = 0; j < fs.size(); j++) if (in[j] && std::string(fs[j]->d.name) == fs[i]->d.name && fs[j]->d.kind == fs[i]->d.kind && fs[j]->d.T == fs[i]->d.T) other = true; sv_check(other || !fs[i]->field_in(*S2), "field-left-out"); }
  }
  if (old) { bool same = true; for (size_t i = 0; i < old->size(); i++) same = same & ((*old)[i] == -5.0); sv_check(same && (int)old->size() == (int)M->num_entities(NO, ALL), "existing-field-untouched"); }
  sv_check(S2->size() == stored + (had ? 1 : 0) - (clash ? 1 : 0), "number-of-fields");
  // the exporting state is as it was
  sv_check(S->size() == (int)fs.size(), "exporting-state-unchanged");
  auto S3 = State::create(M);
  S3->init_from_mesh();
  S3->export_to_mesh();
  sv_check((int)M->fields.size() == stored && S3->size() == stored, "exporting-the-import-changes-nothing");
  for (size_t i = 0; i < fs.size(); i++) if (in[i]) sv_check(fs[i]->came_back(*S3), "field-came-back-again");
  sv_cover(stored ? "stored" : "none-stored");
}
