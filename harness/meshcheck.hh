// Oracle-side helpers shared by the mesh harnesses.
#pragma once
#include <vector>
#include <cmath>
#include <algorithm>
#include "Mesh.hh"
#include "sv.h"
using JaliGeometry::Point;
typedef std::vector<int> IL;
using Jali::Entity_kind;
using Jali::Entity_type;

inline bool has(IL const& l, int x) { for (int y : l) if (y == x) return true; return false; }
inline bool dupfree(IL const& l) { for (size_t i = 0; i < l.size(); i++) for (size_t j = i + 1; j < l.size(); j++) if (l[i] == l[j]) return false; return true; }
inline bool inrange(IL const& l, int n) { for (int x : l) if (x < 0 || x >= n) return false; return true; }
inline bool subset(IL const& a, IL const& b) { for (int x : a) if (!has(b, x)) return false; return true; }
inline bool sameset(IL const& a, IL const& b) { return a.size() == b.size() && subset(a, b) && subset(b, a); }
inline IL cnodes(Jali::Mesh& m, int c) { IL l; m.cell_get_nodes(c, &l); return l; }
inline IL cfaces(Jali::Mesh& m, int c) { IL l; m.cell_get_faces(c, &l); return l; }
inline IL fnodes(Jali::Mesh& m, int f) { IL l; m.face_get_nodes(f, &l); return l; }
inline IL fcells(Jali::Mesh& m, int f, Entity_type t = Entity_type::ALL) { IL l; m.face_get_cells(f, t, &l); return l; }
inline IL ncells(Jali::Mesh& m, int n, Entity_type t = Entity_type::ALL) { IL l; m.node_get_cells(n, t, &l); return l; }
inline IL nfaces(Jali::Mesh& m, int n, Entity_type t = Entity_type::ALL) { IL l; m.node_get_faces(n, t, &l); return l; }
inline Entity_type type_of(Jali::Mesh& m, Entity_kind k, int e) { return m.entity_get_type(k, e); }
inline bool is_type(Jali::Mesh& m, Entity_kind k, int e, Entity_type t) { return t == Entity_type::ALL || m.entity_get_type(k, e) == t; }

// M01: adjacency tables are complete, duplicate free and mutually inverse
inline void check_adjacency(Jali::Mesh& m) {
  int nc = m.num_cells(), nf = m.num_faces(), nn = m.num_nodes();
  for (int c = 0; c < nc; c++) {
    IL cn = cnodes(m, c), cf = cfaces(m, c);
    sv_check(dupfree(cn) && inrange(cn, nn), "cell-nodes-valid");
    sv_check(dupfree(cf) && inrange(cf, nf), "cell-faces-valid");
    sv_check((int)m.cell_get_num_faces(c) == (int)cf.size(), "cell-face-count");
    IL cf2; std::vector<Jali::dir_t> cd; m.cell_get_faces_and_dirs(c, &cf2, &cd);
    sv_check(cf2 == cf && cd.size() == cf.size(), "cell-faces-and-dirs");
    for (int d : cd) sv_check(d == 1 || d == -1, "face-direction-value");
    IL un;  // nodes of the cell = union of the nodes of its faces
    for (int f : cf) { sv_check(has(fcells(m, f), c), "cell-face-inverse"); IL fn = fnodes(m, f); sv_check(subset(fn, cn), "face-nodes-in-cell"); for (int n : fn) if (!has(un, n)) un.push_back(n); }
    sv_check(sameset(un, cn), "cell-nodes-are-face-nodes");
    for (int n : cn) sv_check(has(ncells(m, n), c), "cell-node-inverse");
    IL of; m.cell_get_faces(c, &of, true);
    sv_check(sameset(of, cf), "ordered-cell-faces");
  }
  for (int f = 0; f < nf; f++) {
    IL fc = fcells(m, f), fn = fnodes(m, f);
    sv_check(dupfree(fc) && inrange(fc, nc) && fc.size() >= 1 && fc.size() <= 2, "face-cells-valid");
    sv_check(dupfree(fn) && inrange(fn, nn), "face-nodes-valid");
    for (int c : fc) sv_check(has(cfaces(m, c), f), "face-cell-inverse");
    for (int n : fn) sv_check(has(nfaces(m, n), f), "face-node-inverse");
  }
  for (int n = 0; n < nn; n++) {
    IL nc_ = ncells(m, n), nf_ = nfaces(m, n);
    sv_check(dupfree(nc_) && inrange(nc_, nc), "node-cells-valid");
    sv_check(dupfree(nf_) && inrange(nf_, nf), "node-faces-valid");
    for (int c : nc_) sv_check(has(cnodes(m, c), n), "node-cell-inverse");
    for (int f : nf_) sv_check(has(fnodes(m, f), n), "node-face-inverse");
  }
}

// M10: neighbour and upward queries are exact, for one requested type
inline void check_neighbours(Jali::Mesh& m, Entity_type t) {
  int nc = m.num_cells(), nf = m.num_faces(), nn = m.num_nodes();
  for (int c = 0; c < nc; c++) {
    if (m.entity_get_type(Entity_kind::CELL, c) == Entity_type::BOUNDARY_GHOST) continue;
    IL e, g, en, gn, cf = cfaces(m, c), cn = cnodes(m, c);
    for (int c2 = 0; c2 < nc; c2++) {
      if (c2 == c || !is_type(m, Entity_kind::CELL, c2, t)) continue;
      IL cf2 = cfaces(m, c2), cn2 = cnodes(m, c2);
      bool sf = false, sn = false;
      for (int f : cf) if (has(cf2, f)) sf = true;
      for (int n : cn) if (has(cn2, n)) sn = true;
      if (sf) e.push_back(c2);
      if (sn) en.push_back(c2);
    }
    m.cell_get_face_adj_cells(c, t, &g);
    m.cell_get_node_adj_cells(c, t, &gn);
    sv_check(dupfree(g) && sameset(g, e), "face-neighbours");
    sv_check(dupfree(gn) && sameset(gn, en), "node-neighbours");
    for (int n : cn) {
      IL cnf, want;
      m.node_get_cell_faces(n, c, t, &cnf);
      for (int f : cf) if (has(fnodes(m, f), n) && is_type(m, Entity_kind::FACE, f, t)) want.push_back(f);
      sv_check(dupfree(cnf) && sameset(cnf, want), "faces-of-cell-at-node");
    }
  }
  for (int f = 0; f < nf; f++) {
    IL g = fcells(m, f, t), e;
    for (int c = 0; c < nc; c++) if (has(cfaces(m, c), f) && is_type(m, Entity_kind::CELL, c, t)) e.push_back(c);
    sv_check(dupfree(g) && sameset(g, e), "cells-of-face");
  }
  for (int n = 0; n < nn; n++) {
    IL g = ncells(m, n, t), e, gf = nfaces(m, n, t), ef;
    for (int c = 0; c < nc; c++) if (has(cnodes(m, c), n) && is_type(m, Entity_kind::CELL, c, t)) e.push_back(c);
    for (int f = 0; f < nf; f++) if (has(fnodes(m, f), n) && is_type(m, Entity_kind::FACE, f, t)) ef.push_back(f);
    sv_check(dupfree(g) && sameset(g, e), "cells-of-node");
    sv_check(dupfree(gf) && sameset(gf, ef), "faces-of-node");
  }
}
