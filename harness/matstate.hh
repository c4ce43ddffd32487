// A state with materials next to a model of what it should hold.
#pragma once
#include <algorithm>
#include <stdexcept>
#include "tmesh.hh"
#include "tiles.hh"
#include "BoxRegion.hh"
#include "GeometricModel.hh"
#include "JaliState.h"
using namespace Jali;
static const int NC = 5;                               // row of cells; the last but one a ghost, the last one a boundary ghost
static const char* MAT[4] = {"steel", "air", "preset", "box"};   // "preset": a mesh set of cells; "box": a region
// lists of cells as a caller may give them: in any order, with repetitions, ghosts among them
static const int NL = 10;
static const std::vector<int> LIST[NL] = {{}, {0}, {3, 1}, {2, 2, 0}, {4, 1}, {0, 1, 2, 3}, {3, 0, 3}, {2}, {1, 0, 1, 2}, {3}};
struct Mat { std::string name; std::vector<int> own, gh; };
struct World {
  std::shared_ptr<TestMesh> mesh;
  std::shared_ptr<State> S;
  std::vector<Mat> mats;
  std::vector<std::vector<int>> setown, setgh;         // cells of the mesh set behind each name
  std::vector<bool> haveset;
  World() {
    MeshOpts o;
    o.ntiles = 2; o.halo = 0; o.pt = Partitioner_type::INDEX;
    o.ctype = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::BOUNDARY_GHOST};
    JaliGeometry::Point a(1), b(1);
    a[0] = 1; b[0] = 3.75;
    std::vector<JaliGeometry::RegionPtr> regs{new JaliGeometry::BoxRegion("box", 1, a, b)};
    o.gm = new JaliGeometry::GeometricModel(1, regs);
    mesh = std::make_shared<TestMesh>(row({0, 1, 2, 3, 4, 5}), o);
    mesh->init_sets_from_geometric_model();
    make_meshset("preset", *mesh, Entity_kind::CELL, IL{2, 0}, IL{3}, false);
    S = State::create(mesh);
    setown = {{}, {}, {2, 0}, {1, 2}}; setgh = {{}, {}, {3}, {3}};
    haveset = {false, false, true, true};
  }
  int index(std::string const& n) const { for (size_t i = 0; i < mats.size(); i++) if (mats[i].name == n) return i; return -1; }
  static void put(std::vector<int>& own, std::vector<int>& gh, std::vector<int> const& l) {
    for (int c : l) { if (c < 3 && !has(own, c)) own.push_back(c); if (c == 3 && !has(gh, c)) gh.push_back(c); }
  }
  void add(int n, std::vector<int> const& l) {
    S->add_material(MAT[n], l);
    if (index(MAT[n]) >= 0) return;
    put(setown[n], setgh[n], l);
    mats.push_back({MAT[n], setown[n], setgh[n]});
  }
  int which(std::string const& n) const { for (int i = 0; i < 4; i++) if (n == MAT[i]) return i; return -1; }
  void rem(int m, bool byname) {
    if (byname) S->rem_material_by_name(m < (int)mats.size() ? mats[m].name : "none"); else S->rem_material(m);
    if (m < (int)mats.size()) mats.erase(mats.begin() + m);
  }
  void addcells(int m, std::vector<int> const& l) {
    S->add_cells_to_material(m, l);
    int n = which(mats[m].name);
    put(setown[n], setgh[n], l);
    mats[m].own = setown[n]; mats[m].gh = setgh[n];
  }
  std::vector<int> cells(int m) const { auto v = mats[m].own; v.insert(v.end(), mats[m].gh.begin(), mats[m].gh.end()); return v; }
  bool in(int m, int c) const { return has(mats[m].own, c) || has(mats[m].gh, c); }
};
