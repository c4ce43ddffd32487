// A table-driven mesh framework: implements the interface that Jali::Mesh
// expects of a framework directly on topology tables, so that the generic code
// (Mesh.cc, MeshSet.cc, MeshTile.cc, the state manager) runs on 1D rows, 2D
// polygons, surfaces and 3D polyhedra with any storage orientation of faces and
// edges, any order of the faces of a cell and any ownership of the entities.
#pragma once
#include <map>
#include <string>
#include <array>
#include <memory>
#include "meshcheck.hh"
#include "MeshTile.hh"
#include "MeshSet.hh"
using Jali::Cell_type;
using Jali::dir_t;
using Jali::Entity_ID;
using Jali::Entity_ID_List;

struct Topo {
  int sd, md;
  std::vector<std::vector<double>> xyz;        // node coordinates
  std::vector<IL> cn;                          // nodes of each cell
  std::vector<std::vector<IL>> cf;             // faces of each cell, nodes in outward order
  std::vector<Cell_type> ct;
  void cell2(IL const& n) {                    // polygon: one face per edge, in order
    cn.push_back(n);
    std::vector<IL> f;
    for (size_t i = 0; i < n.size(); i++) f.push_back({n[i], n[(i + 1) % n.size()]});
    cf.push_back(f);
    ct.push_back(n.size() == 3 ? Cell_type::TRI : n.size() == 4 ? Cell_type::QUAD : Cell_type::POLYGON);
  }
  void hex(IL const& n) {
    cn.push_back(n);
    cf.push_back({{n[0], n[1], n[5], n[4]}, {n[1], n[2], n[6], n[5]}, {n[2], n[3], n[7], n[6]}, {n[3], n[0], n[4], n[7]}, {n[0], n[3], n[2], n[1]}, {n[4], n[5], n[6], n[7]}});
    ct.push_back(Cell_type::HEX);
  }
  void prism(IL const& n) {                    // triangles n0 n1 n2 (bottom) and n3 n4 n5 (top)
    cn.push_back(n);
    cf.push_back({{n[0], n[2], n[1]}, {n[3], n[4], n[5]}, {n[0], n[1], n[4], n[3]}, {n[1], n[2], n[5], n[4]}, {n[2], n[0], n[3], n[5]}});
    ct.push_back(Cell_type::PRISM);
  }
  void tet(IL const& n) {
    cn.push_back(n);
    cf.push_back({{n[0], n[2], n[1]}, {n[0], n[1], n[3]}, {n[1], n[2], n[3]}, {n[2], n[0], n[3]}});
    ct.push_back(Cell_type::TET);
  }
  void pyramid(IL const& n) {
    cn.push_back(n);
    cf.push_back({{n[0], n[3], n[2], n[1]}, {n[0], n[1], n[4]}, {n[1], n[2], n[4]}, {n[2], n[3], n[4]}, {n[3], n[0], n[4]}});
    ct.push_back(Cell_type::PYRAMID);
  }
};
// x' = A x + t
inline void affine(Topo& t, std::vector<std::vector<double>> const& A) {
  for (auto& p : t.xyz) {
    std::vector<double> q(t.sd, 0.0);
    for (int i = 0; i < t.sd; i++) for (int j = 0; j < t.sd; j++) q[i] += A[i][j] * p[j];
    p = q;
  }
}
inline void translate(Topo& t, std::vector<double> const& d) { for (auto& p : t.xyz) for (int i = 0; i < t.sd; i++) p[i] += d[i]; }
inline Topo row(std::vector<double> const& x) {
  Topo t; t.sd = t.md = 1;
  for (double v : x) t.xyz.push_back({v});
  for (int i = 0; i + 1 < (int)x.size(); i++) { t.cn.push_back({i, i + 1}); t.cf.push_back({{i}, {i + 1}}); t.ct.push_back(Cell_type::CELLTYPE_UNKNOWN); }
  return t;
}
// quadrilateral, triangle and convex pentagon around one interior node
inline Topo patch2() {
  Topo t; t.sd = t.md = 2;
  t.xyz = {{0, 0}, {2, 0}, {4, 3}, {0, 2}, {2, 2}, {1, 4}, {4, 5}};
  t.cell2({0, 1, 4, 3}); t.cell2({1, 2, 4}); t.cell2({3, 4, 2, 6, 5});
  return t;
}
// two quadrilaterals, one of them with a reflex corner
inline Topo reflex2() {
  Topo t; t.sd = t.md = 2;
  t.xyz = {{0, 0}, {4, 0}, {2, 1.5}, {0, 4}, {4, 4}};
  t.cell2({0, 1, 2, 3}); t.cell2({1, 4, 3, 2});
  return t;
}
inline Topo grid2(int nx, int ny) {
  Topo t; t.sd = t.md = 2;
  for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) t.xyz.push_back({(double)i, (double)j});
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { int a = j * (nx + 1) + i; t.cell2({a, a + 1, a + nx + 2, a + nx + 1}); }
  return t;
}
inline Topo grid3(int nx, int ny, int nz) {
  Topo t; t.sd = t.md = 3;
  for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) t.xyz.push_back({(double)i, (double)j, (double)k});
  int dx = 1, dy = nx + 1, dz = (nx + 1) * (ny + 1);
  for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
    int a = i * dx + j * dy + k * dz;
    t.hex({a, a + dx, a + dx + dy, a + dy, a + dz, a + dx + dz, a + dx + dy + dz, a + dy + dz});
  }
  return t;
}
// the same polygons lifted on a plane z = a x + b y in 3D
inline Topo surface(Topo p, double a, double b) {
  p.sd = 3;
  for (auto& q : p.xyz) q.push_back(a * q[0] + b * q[1]);
  return p;
}
inline Topo hex2() {
  Topo t; t.sd = t.md = 3;
  for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) for (int i = 0; i < 3; i++) t.xyz.push_back({2.0 * i, 1.0 * j, 3.0 * k});
  t.hex({0, 1, 4, 3, 6, 7, 10, 9}); t.hex({1, 2, 5, 4, 7, 8, 11, 10});
  return t;
}
inline Topo hexpyr() {
  Topo t; t.sd = t.md = 3;
  t.xyz = {{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {0, 0, 2}, {2, 0, 2}, {2, 2, 2}, {0, 2, 2}, {1, 1, 4}};
  t.hex({0, 1, 2, 3, 4, 5, 6, 7}); t.pyramid({4, 5, 6, 7, 8});
  return t;
}
inline Topo prismtet() {
  Topo t; t.sd = t.md = 3;
  t.xyz = {{0, 0, 0}, {3, 0, 0}, {0, 3, 0}, {0, 0, 2}, {3, 0, 2}, {0, 3, 2}, {1, 1, 5}};
  t.prism({0, 1, 2, 3, 4, 5}); t.tet({3, 4, 5, 6});
  return t;
}
inline Topo tets2() {
  Topo t; t.sd = t.md = 3;
  t.xyz = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}, {2, 2, 2}};
  t.tet({0, 1, 2, 3}); t.tet({1, 2, 3, 4});   // the second is listed so that face {1,2,3} is shared
  return t;
}

struct MeshOpts {
  bool faces = true, edges = false, sides = false, wedges = false, corners = false;
  int ntiles = 0, halo = 0;
  Jali::Partitioner_type pt = Jali::Partitioner_type::INDEX;
  JaliGeometry::Geom_type geom = JaliGeometry::Geom_type::CARTESIAN;
  JaliGeometry::GeometricModelPtr gm = nullptr;
  std::vector<bool> fflip, eflip, fcswap;      // storage orientation of face / edge i, order of its cells
  std::vector<int> crot;                       // rotation of the face list of cell i
  std::vector<Entity_type> ctype;              // ownership of cell i (default owned)
  std::vector<Entity_type> ntype;              // of node i (default: owned if it touches an owned cell)
};

class TestMesh : public Jali::Mesh {
 public:
  Topo t;
  MeshOpts o;
  std::vector<std::vector<double>> x;
  std::vector<IL> fn, fc, fe, ce, cfl, nodecells, nodefaces;
  std::vector<std::vector<dir_t>> fed, cfd;
  std::vector<std::array<int, 2>> en;
  std::vector<Entity_type> tc, tf, te, tn;
  struct Field { std::string name; Entity_kind kind; int type; std::vector<double> d; };
  std::vector<Field> fields;
  std::map<std::string, std::pair<IL, IL>> labeled;   // owned, ghost members by label

  TestMesh(Topo const& topo, MeshOpts const& opt) : Mesh(opt.faces, opt.edges, opt.sides, opt.wedges, opt.corners, opt.ntiles, opt.halo, 1, false, opt.pt, opt.geom, MPI_COMM_WORLD), t(topo), o(opt), x(topo.xyz) {
    set_space_dimension(t.sd); set_manifold_dimension(t.md);
    if (o.gm) set_geometric_model(o.gm);
    int nc = t.cn.size(), nn = x.size();
    cfl.resize(nc); cfd.resize(nc); ce.resize(nc); nodecells.resize(nn); nodefaces.resize(nn);
    for (int c = 0; c < nc; c++) {
      for (IL const& g : t.cf[c]) {
        int f = -1;
        for (int k = 0; k < (int)fn.size(); k++) if (sameset(fn[k], g)) { f = k; break; }
        dir_t d = 1;
        if (f < 0) { f = fn.size(); fn.push_back(g); fc.push_back(IL()); if (t.md == 1 && g[0] == t.cn[c][0]) d = -1; }
        else if (t.md == 1) d = g[0] == t.cn[c][0] ? -1 : 1;
        else { size_t p = 0; while (fn[f][p] != g[0]) p++; d = fn[f][(p + 1) % fn[f].size()] == g[1] ? 1 : -1; if (t.md == 2) d = fn[f][0] == g[0] ? 1 : -1; }
        fc[f].push_back(c); cfl[c].push_back(f); cfd[c].push_back(d);
      }
      for (int n : t.cn[c]) nodecells[n].push_back(c);
    }
    int nf = fn.size();
    if (t.md > 1) for (int f = 0; f < nf && f < (int)o.fflip.size(); f++) if (o.fflip[f]) {
      std::reverse(fn[f].begin(), fn[f].end());
      for (int c = 0; c < nc; c++) for (size_t k = 0; k < cfl[c].size(); k++) if (cfl[c][k] == f) cfd[c][k] = -cfd[c][k];
    }
    for (int f = 0; f < nf && f < (int)o.fcswap.size(); f++) if (o.fcswap[f]) std::reverse(fc[f].begin(), fc[f].end());
    if (t.md == 3) for (int c = 0; c < nc && c < (int)o.crot.size(); c++) {
      std::rotate(cfl[c].begin(), cfl[c].begin() + o.crot[c], cfl[c].end());
      std::rotate(cfd[c].begin(), cfd[c].begin() + o.crot[c], cfd[c].end());
    }
    for (int f = 0; f < nf; f++) for (int n : fn[f]) nodefaces[n].push_back(f);
    fe.resize(nf); fed.resize(nf);
    if (t.md == 1) { for (int n = 0; n < nn; n++) en.push_back({n, n}); for (int f = 0; f < nf; f++) { fe[f] = {f}; fed[f] = {1}; } for (int c = 0; c < nc; c++) ce[c] = t.cn[c]; }
    else if (t.md == 2) { for (int f = 0; f < nf; f++) { en.push_back({fn[f][0], fn[f][1]}); fe[f] = {f}; fed[f] = {1}; } for (int c = 0; c < nc; c++) ce[c] = cfl[c]; }
    else {
      for (int f = 0; f < nf; f++) for (size_t i = 0; i < fn[f].size(); i++) {
        int a = fn[f][i], b = fn[f][(i + 1) % fn[f].size()], e = -1;
        for (int k = 0; k < (int)en.size(); k++) if ((en[k][0] == a && en[k][1] == b) || (en[k][0] == b && en[k][1] == a)) { e = k; break; }
        if (e < 0) { e = en.size(); if (e < (int)o.eflip.size() && o.eflip[e]) en.push_back({b, a}); else en.push_back({a, b}); }
        fe[f].push_back(e); fed[f].push_back(en[e][0] == a ? 1 : -1);
      }
      for (int c = 0; c < nc; c++) for (int f : cfl[c]) for (int e : fe[f]) if (!has(ce[c], e)) ce[c].push_back(e);
    }
    own();
    fill(nodeids_owned_, nodeids_ghost_, nullptr, nodeids_all_, tn);
    fill(cellids_owned_, cellids_ghost_, &cellids_boundary_ghost_, cellids_all_, tc);
    if (faces_requested) fill(faceids_owned_, faceids_ghost_, nullptr, faceids_all_, tf);
    if (edges_requested) fill(edgeids_owned_, edgeids_ghost_, nullptr, edgeids_all_, te);
    cache_extra_variables();
    if (o.ntiles) build_tiles();
  }
  void own() {
    int nc = t.cn.size(), nn = x.size(), nf = fn.size(), ne = en.size();
    tc.assign(nc, Entity_type::PARALLEL_OWNED);
    for (int c = 0; c < nc && c < (int)o.ctype.size(); c++) tc[c] = o.ctype[c];
    tn.assign(nn, Entity_type::PARALLEL_GHOST); tf.assign(nf, Entity_type::PARALLEL_GHOST); te.assign(ne, Entity_type::PARALLEL_GHOST);
    for (int n = 0; n < nn; n++) for (int c : nodecells[n]) if (tc[c] == Entity_type::PARALLEL_OWNED) tn[n] = Entity_type::PARALLEL_OWNED;
    for (int n = 0; n < nn && n < (int)o.ntype.size(); n++) tn[n] = o.ntype[n];
    for (int f = 0; f < nf; f++) for (int c : fc[f]) if (tc[c] == Entity_type::PARALLEL_OWNED) tf[f] = Entity_type::PARALLEL_OWNED;
    for (int e = 0; e < ne; e++) for (int c = 0; c < nc; c++) if (tc[c] == Entity_type::PARALLEL_OWNED && has(ce[c], e)) te[e] = Entity_type::PARALLEL_OWNED;
  }
  static void fill(Entity_ID_List& ow, Entity_ID_List& gh, Entity_ID_List* bg, Entity_ID_List& all, std::vector<Entity_type> const& ty) {
    ow.clear(); gh.clear(); if (bg) bg->clear();
    for (int i = 0; i < (int)ty.size(); i++) (ty[i] == Entity_type::PARALLEL_OWNED ? ow : ty[i] == Entity_type::PARALLEL_GHOST || !bg ? gh : *bg).push_back(i);
    all = ow;
    all.insert(all.end(), gh.begin(), gh.end());
    if (bg) all.insert(all.end(), bg->begin(), bg->end());
  }
  Point at(int n) const { Point p(t.sd); for (int i = 0; i < t.sd; i++) p[i] = x[n][i]; return p; }
  static bool ok(std::vector<Entity_type> const& ty, int e, Entity_type want) { return want == Entity_type::ALL || ty[e] == want; }

  Cell_type cell_get_type(Entity_ID const c) const override { return t.ct[c]; }
  Entity_ID GID(Entity_ID const l, Entity_kind const) const override { return l; }
  void cell_get_nodes(Entity_ID const c, Entity_ID_List* l) const override { *l = t.cn[c]; }
  void face_get_nodes(Entity_ID const f, Entity_ID_List* l) const override { *l = fn[f]; }
  void node_get_cells(Entity_ID const n, Entity_type const ty, Entity_ID_List* l) const override { l->clear(); for (int c : nodecells[n]) if (ok(tc, c, ty)) l->push_back(c); }
  void node_get_faces(Entity_ID const n, Entity_type const ty, Entity_ID_List* l) const override { l->clear(); for (int f : nodefaces[n]) if (ok(tf, f, ty)) l->push_back(f); }
  void node_get_cell_faces(Entity_ID const n, Entity_ID const c, Entity_type const ty, Entity_ID_List* l) const override { l->clear(); for (int f : cfl[c]) if (has(fn[f], n) && ok(tf, f, ty)) l->push_back(f); }
  void cell_get_face_adj_cells(Entity_ID const c, Entity_type const ty, Entity_ID_List* l) const override { l->clear(); for (int f : cfl[c]) for (int d : fc[f]) if (d != c && ok(tc, d, ty)) l->push_back(d); }
  void cell_get_node_adj_cells(Entity_ID const c, Entity_type const ty, Entity_ID_List* l) const override { l->clear(); for (int n : t.cn[c]) for (int d : nodecells[n]) if (d != c && ok(tc, d, ty) && !has(*l, d)) l->push_back(d); }
  using Jali::Mesh::node_get_coordinates;
  void node_get_coordinates(Entity_ID const n, Point* p) const override { *p = at(n); }
  void node_get_coordinates(Entity_ID const n, std::array<double, 3>* p) const override { for (int i = 0; i < 3; i++) (*p)[i] = x[n][i]; }
  void node_get_coordinates(Entity_ID const n, std::array<double, 2>* p) const override { for (int i = 0; i < 2; i++) (*p)[i] = x[n][i]; }
  void node_get_coordinates(Entity_ID const n, double* p) const override { *p = x[n][0]; }
  void face_get_coordinates(Entity_ID const f, std::vector<Point>* l) const override { l->clear(); for (int n : fn[f]) l->push_back(at(n)); }
  void cell_get_coordinates(Entity_ID const c, std::vector<Point>* l) const override { l->clear(); for (int n : t.cn[c]) l->push_back(at(n)); }
  void node_set_coordinates(Entity_ID const n, Point const p) override { for (int i = 0; i < t.sd; i++) x[n][i] = p[i]; }
  void node_set_coordinates(Entity_ID const n, double const* p) override { for (int i = 0; i < t.sd; i++) x[n][i] = p[i]; }
  void cell_get_faces_and_dirs_internal(Entity_ID const c, Entity_ID_List* l, std::vector<dir_t>* d, bool const) const override { *l = cfl[c]; if (d) *d = cfd[c]; }
  void face_get_cells_internal(Entity_ID const f, Entity_type const ty, Entity_ID_List* l) const override { l->clear(); for (int c : fc[f]) if (ok(tc, c, ty)) l->push_back(c); }
  void face_get_edges_and_dirs_internal(Entity_ID const f, Entity_ID_List* l, std::vector<dir_t>* d, bool const) const override { *l = fe[f]; if (d) *d = fed[f]; }
  void cell_get_edges_internal(Entity_ID const c, Entity_ID_List* l) const override { *l = ce[c]; }
  void cell_2D_get_edges_and_dirs_internal(Entity_ID const c, Entity_ID_List* l, std::vector<dir_t>* d) const override { *l = ce[c]; *d = cfd[c]; }
  void edge_get_nodes_internal(Entity_ID const e, Entity_ID* a, Entity_ID* b) const override { *a = en[e][0]; *b = en[e][1]; }
  void get_labeled_set_entities(JaliGeometry::LabeledSetRegionPtr const r, Entity_kind const, Entity_ID_List* ow, Entity_ID_List* gh) const override;

  // stored fields; type 0 int, 1 double, 2/3/6 arrays of that many doubles (a vector
  // or a symmetric tensor in the dimension of the mesh); on nodes, faces and cells
  void get_field_info(Entity_kind k, int* n, std::vector<std::string>* names, std::vector<std::string>* types) const override {
    *n = 0; names->clear(); types->clear();
    for (auto const& f : fields) if (f.kind == k) { (*n)++; names->push_back(f.name); types->push_back(f.type == 0 ? "INT" : f.type == 1 ? "DOUBLE" : f.type == t.sd ? "VECTOR" : "TENSOR"); }
  }
  int width(int type) const { return type < 2 ? 1 : type; }
  template <class P> bool getf(std::string const& nm, Entity_kind k, int type, P p) const {
    for (auto const& f : fields) if (f.name == nm && f.kind == k && f.type == type) { for (size_t i = 0; i < f.d.size(); i++) p[i] = f.d[i]; return true; }
    return false;
  }
  template <class P> bool putf(std::string const& nm, Entity_kind k, int type, P p) {
    if (k != Entity_kind::NODE && k != Entity_kind::FACE && k != Entity_kind::CELL) return false;
    if (type > 1 && type != t.sd && type != t.sd * (t.sd + 1) / 2) return false;   // neither a vector nor a symmetric tensor
    int n = num_entities(k, Entity_type::ALL) * width(type);
    for (auto const& f : fields) if (f.name == nm && (f.kind != k || f.type != type)) return false;
    Field* t = nullptr;
    for (auto& f : fields) if (f.name == nm) t = &f;
    if (!t) { fields.push_back(Field{nm, k, type, {}}); t = &fields.back(); }
    t->d.clear();
    for (int i = 0; i < n; i++) t->d.push_back(p[i]);
    return true;
  }
  bool get_field(std::string nm, Entity_kind k, int* d) const override { return getf(nm, k, 0, d); }
  bool get_field(std::string nm, Entity_kind k, double* d) const override { return getf(nm, k, 1, d); }
  bool get_field(std::string nm, Entity_kind k, std::array<double, (std::size_t)2>* d) const override { return getf(nm, k, 2, (double*)d); }
  bool get_field(std::string nm, Entity_kind k, std::array<double, (std::size_t)3>* d) const override { return getf(nm, k, 3, (double*)d); }
  bool get_field(std::string nm, Entity_kind k, std::array<double, (std::size_t)6>* d) const override { return getf(nm, k, 6, (double*)d); }
  bool store_field(std::string nm, Entity_kind k, int* d) override { return putf(nm, k, 0, d); }
  bool store_field(std::string nm, Entity_kind k, double* d) override { return putf(nm, k, 1, d); }
  bool store_field(std::string nm, Entity_kind k, std::array<double, (std::size_t)2>* d) override { return putf(nm, k, 2, (double*)d); }
  bool store_field(std::string nm, Entity_kind k, std::array<double, (std::size_t)3>* d) override { return putf(nm, k, 3, (double*)d); }
  bool store_field(std::string nm, Entity_kind k, std::array<double, (std::size_t)6>* d) override { return putf(nm, k, 6, (double*)d); }
};
#include "LabeledSetRegion.hh"
inline void TestMesh::get_labeled_set_entities(JaliGeometry::LabeledSetRegionPtr const r, Entity_kind const, Entity_ID_List* ow, Entity_ID_List* gh) const {
  ow->clear(); gh->clear();
  auto it = labeled.find(r->label());
  if (it != labeled.end()) { *ow = it->second.first; *gh = it->second.second; }
}
// symbolic choice of one of the topologies; kinds: bit 0 row, 1 patch, 2 hex pair, 3 hex+pyramid, 4 prism+tet, 5 tet pair, 6 reflex pair, 7 surface patch
inline Topo pick(int k) {
  switch (k) {
    case 0: return row({1, 1.5, 3, 4});
    case 1: return patch2();
    case 2: return hex2();
    case 3: return hexpyr();
    case 4: return prismtet();
    case 5: return tets2();
    case 6: return reflex2();
    default: return surface(patch2(), 0.75, 0);
  }
}
static const double FR2[3][2][2] = {{{1, 0}, {0, 1}}, {{2, 1}, {-1, 1.5}}, {{0, -1}, {1, 0}}};
static const double FR3[3][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{2, 1, 0}, {-1, 2, 1}, {0, 1, 3}}, {{0, 0, 1}, {1, 0, 0}, {0, 1, 0}}};
// places a topology: frame fr, then a symbolic stretch along the first axis and a symbolic translation;
// the nodes of a 1D row get arbitrary increasing coordinates
inline void place(Topo& t, int fr, int B, bool stretch) {
  if (t.sd == 1) {
    bool up = true;
    for (size_t i = 0; i < t.xyz.size(); i++) { t.xyz[i][0] = sv_grid("x", 1, B, 2); if (i) up = up & (t.xyz[i - 1][0] < t.xyz[i][0]); }
    sv_assume(up);
    return;
  }
  std::vector<std::vector<double>> A(t.sd, std::vector<double>(t.sd));
  double s = stretch ? sv_grid("stretch", 1, 16, 2) : 1;
  for (int i = 0; i < t.sd; i++) for (int j = 0; j < t.sd; j++) A[i][j] = t.sd == 2 ? FR2[fr][i][j] : FR3[fr][i][j];
  for (int j = 0; j < t.sd; j++) A[0][j] = A[0][j] * s;
  affine(t, A);
  std::vector<double> d(t.sd);
  for (int i = 0; i < t.sd; i++) d[i] = sv_grid("t", -B, B, 2);
  translate(t, d);
}
// storage orientation of faces and edges, order of the cells of faces, first face of cells
inline void orient(MeshOpts& o, int bits) {
  for (int i = 0; i < 32; i++) { o.fflip.push_back(bits >> (i % 3) & 1); o.eflip.push_back((bits >> (i % 2)) & 1); o.fcswap.push_back(bits & 2); }
  for (int c = 0; c < 4; c++) o.crot.push_back(bits & 3);
}
inline double dot3(Point const& a, Point const& b) { double s = 0; for (int i = 0; i < a.dim(); i++) s += a[i] * b[i]; return s; }
inline double sq(double v) { return v * v; }
inline void close_pt(Point const& a, Point const& b, double tol, char const* label) { sv_check(a.dim() == b.dim(), label); for (int i = 0; i < a.dim(); i++) sv_check_close(a[i], b[i], tol, label); }
