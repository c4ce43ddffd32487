// Field vectors: extent, initial values, element access, copies and handles.
//@ sources: state mesh geom err
//@ bounds: fields on a row of 3 cells, a 2x2 grid or a pair of hexahedra (1D, 2D, 3D) with all entities owned or the last cell a ghost, two tiles with a halo layer; every kind of entity, entity types owned, ghost and all, on the mesh, on a tile and on a mesh set; int, double and pair values: an arbitrary constant (16 bit ints) or an array whose first four entries are arbitrary; an arbitrary value written at the first, a middle or the last entry through any of eight handles and copies; vectors copied from another mesh of the same extent
//@ bounds_quick: ghosts only on the 2x2 grid
//@ quick: -DWIDE=0
//@ thorough: -DWIDE=1
#include "sv.h"
#include "tmesh.hh"
#include "tiles.hh"
#include "JaliState.h"
using namespace Jali;
typedef std::array<double, 2> P2;
static const Entity_kind K[7] = {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER};
static const Entity_type TY[3] = {Entity_type::ALL, Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST};
template <class T> T sym(const char* n);
template <> int sym<int>(const char* n) { return sv_int(n, -30000, 30000); }
template <> double sym<double>(const char* n) { return sv_grid(n, -3000, 3000, 3); }
template <> P2 sym<P2>(const char* n) { P2 p; p[0] = sv_grid(n, -300, 300, 1); p[1] = sv_grid(n, -300, 300, 1); return p; }
template <class T> T con(int i);
template <> int con<int>(int i) { return 17 * i - 3; }
template <> double con<double>(int i) { return 0.25 * i - 3; }
template <> P2 con<P2>(int i) { P2 p; p[0] = i; p[1] = 0.5 * i; return p; }
static bool same(int a, int b) { return a == b; }
static bool same(double a, double b) { return a == b; }
static bool same(P2 const& a, P2 const& b) { return (a[0] == b[0]) & (a[1] == b[1]); }
template <class V, class T> bool holds(V& v, std::vector<T> const& w) {
  V const& c = v;
  if (v.size() != w.size() || v.end() - v.begin() != (long)w.size() || v.cend() - v.cbegin() != (long)w.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < w.size(); i++) ok = ok & same(v[i], w[i]) & same(c[i], w[i]) & same(*(v.begin() + i), w[i]) & same(*(c.cbegin() + i), w[i]) & same(v.get_raw_data()[i], w[i]) & same(c.get_raw_data()[i], w[i]) & same((*v.get_data())[i], w[i]);
  return ok;
}
template <class T, class Dom> struct ByAdd { static void go(std::shared_ptr<State>, UniStateVector<T, Dom>&, std::vector<T>&, T) {} };
template <class T> struct ByAdd<T, Mesh> {
  static void go(std::shared_ptr<State> s, UniStateVector<T, Mesh>& v, std::vector<T>& w, T x) {
    auto s2 = State::create(v.domain());
    UniStateVector<T, Mesh>& u = s2->add(v);
    sv_check(s2->size() == 1 && holds(u, w), "vector-added-to-a-state");
    sv_check(u.name() == v.name() && u.entity_kind() == v.entity_kind() && u.entity_type() == v.entity_type() && u.domain() == v.domain() && u.type() == StateVector_type::UNIVAL, "attributes-of-an-added-vector");
    if (w.size()) { std::vector<T> w2 = w; w2[0] = x; u[0] = x; sv_check(holds(u, w2) && holds(v, w), "added-vector-is-independent"); }
    std::vector<T> w3 = w;
    if (w.size()) w3[0] = x;
    UniStateVector<T, Mesh>& a = s2->add(v);
    sv_check(&a == &u && holds(u, w3), "adding-it-again-changes-nothing");
  }
};
template <class T, class Dom> void fields(std::shared_ptr<State> S, std::shared_ptr<Dom> dm, Entity_kind k, Entity_type t, int n, int at) {
  typedef UniStateVector<T, Dom> V;
  std::string nm = "f";
  sv_check((int)dm->num_entities(k, t) == n, "number-of-entities");
  T c = sym<T>("constant");
  V& u = S->add<T, Dom, UniStateVector>("u", dm, k, t);
  sv_check((int)u.size() == n && (int)(u.end() - u.begin()) == n, "extent");
  V& v = S->add<T, Dom, UniStateVector>(nm, dm, k, t, c);
  std::vector<T> w(n, c);
  sv_check(holds(v, w), "constant-everywhere");
  std::vector<T> arr;
  for (int i = 0; i < n; i++) arr.push_back(i < 4 ? sym<T>("entry") : con<T>(i));
  V& a = S->add("g", dm, k, t, (T const*)arr.data());
  std::vector<T> w2 = arr;
  sv_check(holds(a, w2), "values-of-the-array");
  for (auto& x : arr) x = con<T>(99);
  sv_check(holds(a, w2), "array-was-copied");
  sv_check(a.name() == "g" && a.entity_kind() == k && a.entity_type() == t && a.domain() == dm && a.data_type() == typeid(T) && a.type() == StateVector_type::UNIVAL, "attributes");
  // handles and copies
  V cp(a);
  V asg("x", dm, nullptr, Entity_kind::CELL, Entity_type::ALL);
  asg = a;
  V def; def = a;
  V got; std::shared_ptr<V> sp;
  sv_check(S->get("g", dm, k, t, &got) && S->get("g", dm, k, t, &sp), "get");
  V cc(asg);
  sv_check(cp.name() == "g" && asg.name() == "g" && def.name() == "g" && got.name() == "g" && asg.entity_kind() == k && asg.entity_type() == t && cp.entity_type() == t && cp.entity_kind() == k && cp.domain() == dm && asg.domain() == dm, "attributes-of-copies");
  sv_check(holds(cp, w2) && holds(asg, w2) && holds(def, w2) && holds(got, w2) && holds(*sp, w2) && holds(cc, w2), "copies-have-equal-values");
  T x = sym<T>("written");
  if (n) {
    int i = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
    V* H[8] = {&a, &asg, &def, &got, sp.get(), &cp, &cc, &v};
    for (int h = 0; h < 8; h++) {
      std::vector<T> s = w2, p = w2, q = w2, z = w;
      T y = h == 0 ? x : con<T>(40 + h);
      T old = (*H[h])[i];
      if (h % 3 == 0) (*H[h])[i] = y; else if (h % 3 == 1) *(H[h]->begin() + i) = y; else H[h]->get_raw_data()[i] = y;
      (h < 5 ? s : h == 5 ? p : h == 6 ? q : z)[i] = y;
      for (int l = 0; l < 8; l++) sv_check(holds(*H[l], l < 5 ? s : l == 5 ? p : l == 6 ? q : z), l < 5 && h < 5 ? "handles-share-the-data" : "copies-are-independent");
      (*H[h])[i] = old;
    }
  }
  ByAdd<T, Dom>::go(S, a, w2, x);
  // extent changes reach every handle and no copy
  asg.resize(n + 2, c);
  std::vector<T> w3 = w2; w3.push_back(c); w3.push_back(c);
  sv_check(holds(a, w3) && holds(*sp, w3) && holds(cp, w2), "resized");
  a.resize(n);
  sv_check(holds(asg, w2) && holds(cp, w2), "resized-back");
  def.clear();
  sv_check(a.size() == 0 && got.size() == 0 && holds(cp, w2) && holds(v, w), "cleared");
}
extern "C" void sv_main() {
  int md = sv_concretize(sv_int("dimension", 1, 3));
  Topo t = md == 1 ? row({0, 1, 3, 4}) : md == 2 ? grid2(2, 2) : hex2();
  MeshOpts o;
  o.edges = o.sides = o.wedges = o.corners = true; o.ntiles = 2; o.halo = 1; o.pt = Partitioner_type::INDEX;
  int nc = t.cn.size();
  bool ghost = sv_concretize(sv_int("with-a-ghost", 0, 1));
  if (!WIDE) sv_assume(ghost == (md == 2));
  for (int c = 0; c < nc; c++) o.ctype.push_back(ghost && c == nc - 1 ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED);
  auto M = std::make_shared<TestMesh>(t, o);
  auto S = State::create(M);
  int ki = sv_concretize(sv_int("kind", 0, 6)), ti = sv_concretize(sv_int("type", 0, 2)), di = sv_concretize(sv_int("domain", 0, 3)), T = sv_concretize(sv_int("values", 0, 2)), at = sv_concretize(sv_int("at", 0, 2));
  Entity_kind k = K[ki];
  Entity_type ty = TY[ti];
  if (di < 1) {
    int n = 0, all = M->num_entities(k, Entity_type::ALL);
    for (int e = 0; e < all; e++) n += ti == 0 || M->entity_get_type(k, e) == ty;
    std::shared_ptr<Mesh> dm = M;
    if (T == 0 && at == 0) {                     // a vector on another mesh like this one
      std::shared_ptr<Mesh> M2 = std::make_shared<TestMesh>(t, o);
      int c = sv_int("elsewhere", -30000, 30000);
      UniStateVector<int> v("far", M2, nullptr, k, ty, c);
      for (int i = 1; i < n; i += 2) v[i] = i;
      std::vector<int> w;
      for (int i = 0; i < n; i++) w.push_back(i % 2 ? i : c);
      if (n) {
        UniStateVector<int>& a = S->add(v);
        sv_check(holds(a, w) && a.domain() == dm && a.name() == "far" && a.entity_kind() == k && a.entity_type() == ty, "copied-from-another-mesh");
        std::vector<int> w2 = w; w2[0] = 5; a[0] = 5;
        sv_check(holds(a, w2) && holds(v, w), "copy-from-another-mesh-is-independent");
        UniStateVector<int>& b = S->add(v);
        sv_check(&a == &b && holds(a, w2) && S->size() == 1, "copied-from-another-mesh-once");
      }
    }
    if (T == 0) fields<int, Mesh>(S, dm, k, ty, n, at); else if (T == 1) fields<double, Mesh>(S, dm, k, ty, n, at); else fields<P2, Mesh>(S, dm, k, ty, n, at);
  } else if (di < 3) {
    auto dm = M->tiles()[di - 1];
    int n = (ti == 0 ? tile_all(*dm, k) : ti == 1 ? tile_owned(*dm, k) : tile_ghost(*dm, k)).size();
    if (T == 0) fields<int, MeshTile>(S, dm, k, ty, n, at); else if (T == 1) fields<double, MeshTile>(S, dm, k, ty, n, at); else fields<P2, MeshTile>(S, dm, k, ty, n, at);
  } else {
    IL ow, gh;
    int all = M->num_entities(k, Entity_type::ALL);
    for (int e = 1; e < all; e += 2) (M->entity_get_type(k, e) == Entity_type::PARALLEL_OWNED ? ow : gh).push_back(e);
    auto dm = make_meshset("set", *M, k, ow, gh, false);
    int n = ti == 0 ? ow.size() + gh.size() : ti == 1 ? ow.size() : gh.size();
    if (T == 0) fields<int, MeshSet>(S, dm, k, ty, n, at); else if (T == 1) fields<double, MeshSet>(S, dm, k, ty, n, at); else fields<P2, MeshSet>(S, dm, k, ty, n, at);
  }
  sv_cover("checked");
}
