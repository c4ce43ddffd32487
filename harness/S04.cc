// Sets of logical regions.
//@ sources: mesh geom err
//@ bounds: row of 4 quadrilaterals, the third one a ghost and the last one a boundary ghost; component regions: boxes left of a and right of b for arbitrary a and b (and one fixed box) or labelled sets of cells or nodes; logical region L by union, intersection, difference or complement of 7 lists of one to three regions (with repetitions), logical region M by any operation on lists with L in them; regions listed in any of 3 orders, sets built by default, by explicit request of kinds, or one by one before that; L permanent or temporary
//@ bounds_quick: lists of M: L alone, L and B, B and L, each with one order and way of request; two values of b; labelled sets: 5 combinations
//@ bounds_thorough: lists of M: also C and L, A and L and B, L twice; labelled sets: 16 combinations
//@ quick: -DMLISTS=3 -DLABELS=5
//@ thorough: -DMLISTS=6 -DLABELS=16
#include "sv.h"
#include "tmesh.hh"
#include "BoxRegion.hh"
#include "LabeledSetRegion.hh"
#include "LogicalRegion.hh"
#include "GeometricModel.hh"
using namespace JaliGeometry;
typedef std::vector<bool> Bits;
static Bool_type oper(int k) { return k == 0 ? Bool_type::UNION : k == 1 ? Bool_type::INTERSECT : k == 2 ? Bool_type::SUBTRACT : Bool_type::COMPLEMENT; }
static Bits apply(int op, std::vector<Bits> const& v, Bits const& live) {
  Bits r(live.size(), false);
  for (size_t e = 0; e < live.size(); e++) {
    bool any = false, all = true, rest = false;
    for (size_t i = 0; i < v.size(); i++) { any = any || v[i][e]; all = all && v[i][e]; rest = rest || (i && v[i][e]); }
    r[e] = live[e] && (op == 0 ? any : op == 1 ? all : op == 2 ? v[0][e] && !rest : !any);
  }
  return r;
}
extern "C" void sv_main() {
  bool labels = sv_concretize(sv_int("labelled", 0, 1));
  Topo t = grid2(4, 1);
  MeshOpts o;
  o.ctype = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::BOUNDARY_GHOST};
  TestMesh probe(t, o);
  static const char* const LIST[7] = {"A", "AB", "BA", "AA", "ABC", "CAA", "BCB"};
  static const char* const MLIST[6] = {"L", "LB", "BL", "CL", "ALB", "LL"};
  int li = sv_concretize(sv_int("components-of-L", 0, 6)), mi = sv_concretize(sv_int("components-of-M", 0, MLISTS - 1));
  char const* ll = LIST[li]; char const* ml = MLIST[mi];
  int lop = sv_concretize(sv_int("operation-of-L", 0, 3)), mop = sv_concretize(sv_int("operation-of-M", 0, 3));
  int scene = MLISTS == 3 ? (li + 2 * mi + lop + mop * 2) % 6 : sv_concretize(sv_int("scene", 0, 5));
  int order = scene % 3, mode = (scene + scene / 3) % 3;         // how the sets are asked for
  LifeCycle_type life = scene == 4 ? LifeCycle_type::TEMPORARY : LifeCycle_type::PERMANENT;
  std::vector<RegionPtr> leaf;
  double a = 0, b = 0;
  int mask[3] = {0, 0, 0};
  Entity_kind lk = Entity_kind::CELL;
  if (labels) {
    static const int TAB[16][3] = {{1, 3, 4}, {5, 6, 2}, {0, 7, 1}, {7, 7, 0}, {2, 4, 5}, {3, 0, 7}, {0, 0, 0}, {6, 1, 3}, {4, 4, 2}, {1, 2, 4}, {7, 2, 5}, {5, 5, 7}, {2, 3, 6}, {3, 5, 6}, {6, 7, 1}, {4, 3, 3}};
    int c = sv_concretize(sv_int("members", 0, LABELS - 1));
    for (int i = 0; i < 3; i++) mask[i] = TAB[c][i];
    if (sv_concretize(sv_int("nodes", 0, 1))) lk = Entity_kind::NODE;
    std::string type = lk == Entity_kind::CELL ? "CELL" : "Entity_kind::NODE";
    leaf = {new LabeledSetRegion("A", 1, type, "file", "format", "10"), new LabeledSetRegion("B", 2, type, "file", "format", "11"), new LabeledSetRegion("C", 3, type, "file", "format", "12")};
  } else {
    a = sv_grid("a", -8, 72, 4); b = MLISTS == 3 ? (sv_concretize(sv_int("far", 0, 1)) ? 2.25 : 0.875) : sv_grid("b", -8, 72, 4);
    for (int i = 0; i <= 8; i++) { double h = i * 0.5; sv_assume(((a - h > 1e-3) | (h - a > 1e-3)) & ((b - h > 1e-3) | (h - b > 1e-3))); }
    leaf = {new BoxRegion("A", 1, Point(-1, -1), Point(a, 2)), new BoxRegion("B", 2, Point(b, -1), Point(5, 2)), new BoxRegion("C", 3, Point(0.75, -1), Point(1.75, 2))};
  }
  std::vector<std::string> ln, mn;
  for (char const* p = ll; *p; p++) ln.push_back(std::string(1, *p));
  for (char const* p = ml; *p; p++) mn.push_back(std::string(1, *p));
  RegionPtr L = new LogicalRegion("L", 4, oper(lop), ln, life), M = new LogicalRegion("M", 5, oper(mop), mn);
  std::vector<RegionPtr> rs;
  if (order == 0) rs = {leaf[0], leaf[1], leaf[2], L, M};
  else if (order == 1) rs = {M, L, leaf[2], leaf[1], leaf[0]};
  else rs = {leaf[1], M, leaf[0], L, leaf[2]};
  GeometricModel gm(2, rs);
  o.gm = &gm;
  TestMesh m(t, o);
  std::vector<Entity_kind> kinds{Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE};
  if (labels) kinds = {lk};
  std::map<Entity_kind, std::map<std::string, Bits>> want;
  std::map<Entity_kind, std::vector<Entity_type>> types{{Entity_kind::CELL, m.tc}, {Entity_kind::FACE, m.tf}, {Entity_kind::NODE, m.tn}};
  for (Entity_kind k : kinds) {
    auto const& ty = types[k];
    Bits live(ty.size());
    std::vector<Bits> in(3, Bits(ty.size(), false));
    for (size_t e = 0; e < ty.size(); e++) {
      live[e] = ty[e] == Entity_type::PARALLEL_OWNED || ty[e] == Entity_type::PARALLEL_GHOST;
      if (labels) { for (int i = 0; i < 3; i++) in[i][e] = live[e] && (mask[i] >> (e % 3) & 1); continue; }
      double c = 0;
      IL ns = k == Entity_kind::CELL ? t.cn[e] : k == Entity_kind::FACE ? m.fn[e] : IL{(int)e};
      for (int n : ns) c += t.xyz[n][0] / ns.size();
      in[0][e] = live[e] && ((c > -1) & (c < a)) | ((c < -1) & (c > a));
      in[1][e] = live[e] && ((c > b) & (c < 5));
      in[2][e] = live[e] && (c > 0.75 && c < 1.75);
    }
    auto& w = want[k];
    w["A"] = in[0]; w["B"] = in[1]; w["C"] = in[2];
    std::vector<Bits> v;
    for (auto& n : ln) v.push_back(w[n]);
    w["L"] = apply(lop, v, live);
    v.clear();
    for (auto& n : mn) v.push_back(w[n]);
    w["M"] = apply(mop, v, live);
    if (labels) for (int i = 0; i < 3; i++) for (size_t e = 0; e < ty.size(); e++) if (in[i][e]) (ty[e] == Entity_type::PARALLEL_OWNED ? m.labeled[std::to_string(10 + i)].first : m.labeled[std::to_string(10 + i)].second).push_back(e);
  }
  static const char* const ALL[5] = {"M", "B", "L", "A", "C"};
  if (mode == 1) for (int i = 0; i < 5; i++) if (!m.find_meshset(ALL[i], lk)) m.build_set_from_region(ALL[i], lk, i & 1);
  std::map<std::string, std::vector<Entity_kind>> req;
  if (mode == 2) for (char const* n : ALL) req[n] = kinds;
  m.init_sets_from_geometric_model(req);
  auto verify = [&]() {
    for (Entity_kind k : kinds) for (char const* n : ALL) {
      auto const& ty = types[k];
      auto s = m.find_meshset(n, k);
      bool temp = life == LifeCycle_type::TEMPORARY && n[0] == 'L';
      sv_check((s.get() != nullptr) == !temp, "set-exists");
      if (temp && !s) { s = m.build_set_from_region("L", k); sv_check(s.get() != nullptr, "temporary-set"); }
      if (!s) continue;
      IL ow, gh;
      Bits const& w = want[k][n];
      for (size_t e = 0; e < w.size(); e++) if (w[e]) (ty[e] == Entity_type::PARALLEL_OWNED ? ow : gh).push_back(e);
      IL po = s->entities<Entity_type::PARALLEL_OWNED>(), pg = s->entities<Entity_type::PARALLEL_GHOST>(), pa = s->entities<Entity_type::ALL>();
      sv_check(po.size() == ow.size() && sameset(po, ow), n[0] == 'M' ? "members-of-the-nested-region" : n[0] == 'L' ? "members-of-the-logical-region" : "members-of-a-component");
      sv_check(pg.size() == gh.size() && sameset(pg, gh), "ghost-members");
      IL all = po; all.insert(all.end(), pg.begin(), pg.end());
      sv_check(pa == all, "all-members");
      sv_check(s->name() == n && s->kind() == k, "name-and-kind");
      int same = 0;
      for (auto& q : m.sets(k)) same += q->name() == n;
      sv_check(same == !temp, "one-set-of-each-name");
    }
  };
  verify();
  int before = m.num_sets();
  m.init_sets_from_geometric_model(req);
  sv_check(m.num_sets() == before, "initialising-again");
  sv_cover(labels ? "labelled-components" : "box-components");
  sv_cover(scene == 4 ? "temporary" : "permanent");
  for (RegionPtr r : rs) delete r;
}
