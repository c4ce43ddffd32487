SEEDS=[]
def S(**k): SEEDS.append(k)
S(id="s01-union-duplicates", prop="S01", libs="mesh",
  edits=[("src/mesh/MeshSet.cc","""    for (auto const& ent : set->entityids_owned_)
      if (std::find(owned_list.begin(), owned_list.end(), ent) ==
          owned_list.end())
        owned_list.push_back(ent);""","""    for (auto const& ent : set->entityids_owned_)
      if (std::find(set0->entityids_owned_.begin(),
                    set0->entityids_owned_.end(), ent) ==
          set0->entityids_owned_.end())
        owned_list.push_back(ent);""")],
  needs="a union of three sets of which the second and the third share an entity that is not in the first",
  breaks="the shared entity is listed twice in the union",
  demo=r'''
#include "Mesh_simple.hh"
#include "MeshSet.hh"
#include <cstdio>
using namespace Jali;
int main() {
  auto m = std::make_shared<Mesh_simple>(std::vector<double>{0,1,2,3,4}, MPI_COMM_WORLD);
  typedef Entity_ID_List L;
  auto a = make_meshset("a", *m, Entity_kind::CELL, L{0}, L{}, true);
  auto b = make_meshset("b", *m, Entity_kind::CELL, L{1,2}, L{}, true);
  auto c = make_meshset("c", *m, Entity_kind::CELL, L{2,3}, L{}, true);
  auto u = merge({a, b, c});
  printf("%d entities\n", (int)u->entities().size());
  return u->entities().size() != 4;
}
''')
S(id="t03-second-halo-layer", prop="T03", libs="mesh",
  edits=[("src/mesh/MeshTile.cc","          if (std::find(cellids_all_.begin(), cellids_all_.end(), cnbr) !=\n              cellids_all_.end()) continue;","          if (std::find(cellids_owned_.begin(), cellids_owned_.end(), cnbr) !=\n              cellids_owned_.end()) continue;")],
  needs="tiles with a halo of at least two layers",
  breaks="cells of the first halo layer are listed again as ghosts in the second layer",
  demo=r'''
#include "Mesh_simple.hh"
#include "MeshTile.hh"
#include <cstdio>
#include <set>
using namespace Jali;
int main() {
  int bad = 0;
  for (int layers = 0; layers < 4; layers++) {
    Mesh_simple m({0,1,2,3,4,5,6,7,8}, MPI_COMM_WORLD, nullptr, true, false, false, false, false, 4, layers);
    for (auto const& t : m.tiles()) {
      auto const& g = t->cells<Entity_type::ALL>();
      std::set<int> s(g.begin(), g.end());
      bad += s.size() != g.size();
    }
  }
  printf("%d tiles with repeated cells\n", bad);
  return bad != 0;
}
''')
S(id="t03-halo-faces-of-later-tiles", prop="T03", libs="mesh",
  edits=[("src/mesh/MeshTile.cc","""        int tileid = mesh_.master_tile_ID_of_face(f);  // may be -1 (unassigned)
        if (tileid != mytileid_ &&""","""        int tileid = mesh_.master_tile_ID_of_face(f);
        if (tileid != -1 && tileid != mytileid_ &&""")],
  needs="a tile with a halo reaching into a tile made after it",
  breaks="faces of halo cells that have no owner yet when the tile is made are missing from the tile",
  demo=r'''
#include "Mesh_simple.hh"
#include "MeshTile.hh"
#include <cstdio>
#include <algorithm>
using namespace Jali;
int main() {
  int bad = 0;
  Mesh_simple m({0,1,2,3,4,5,6,7,8}, MPI_COMM_WORLD, nullptr, true, false, false, false, false, 2, 1);
  for (auto const& t : m.tiles())
    for (auto c : t->cells<Entity_type::ALL>()) {
      Entity_ID_List fs; m.cell_get_faces(c, &fs);
      auto const& l = t->faces<Entity_type::ALL>();
      for (int f : fs) bad += std::find(l.begin(), l.end(), f) == l.end();
    }
  printf("%d faces missing\n", bad);
  return bad != 0;
}
''')
S(id="f01-1d-wedges-for-corners", prop="F01", libs="all",
  edits=[("src/mesh/mesh_factory/MeshFactory.cc","""std::make_shared<Mesh_simple>(x, comm_, geometric_model_,
                                            request_faces_, request_edges_,
                                            request_sides_, request_wedges_,
                                            request_corners_,""","""std::make_shared<Mesh_simple>(x, comm_, geometric_model_,
                                            request_faces_, request_edges_,
                                            request_sides_, request_wedges_,
                                            request_wedges_,""")],
  needs="a 1D mesh with wedges but not corners, or corners but not wedges, requested",
  breaks="corners follow the request for wedges in 1D meshes", 
  demo=r"""
#include "MeshFactory.hh"
#include <cstdio>
using namespace Jali;
int main() {
  MeshFactory f(MPI_COMM_WORLD);
  f.framework(Simple);
  f.included_entities(Entity_kind::CORNER);
  auto m = f(std::vector<double>{0, 1, 2});
  int n = m->num_entities(Entity_kind::CORNER, Entity_type::ALL);
  printf("%d corners\n", n);
  return n != 4;
}
""")
S(id="v03-remove-swaps-last", prop="V03", libs="state",
  edits=[("src/statemanager/JaliState.cc","  material_cellsets_.erase(material_cellsets_.begin()+m);","  material_cellsets_[m] = material_cellsets_.back();\n  material_cellsets_.pop_back();")],
  needs="at least four materials and the removal of the first or second",
  breaks="the last material takes the number of the removed one while the lists of the cells move all numbers up by one",
  demo=r'''
#include "Mesh_simple.hh"
#include "JaliState.h"
#include <cstdio>
using namespace Jali;
int main() {
  std::shared_ptr<Mesh> m = std::make_shared<Mesh_simple>(std::vector<double>{0,1,2,3,4}, MPI_COMM_WORLD);
  auto s = State::create(m);
  const char* n[4] = {"a", "b", "c", "d"};
  for (int i = 0; i < 4; i++) s->add_material(n[i], {i});
  s->rem_material(1);
  int bad = 0;
  for (int i = 0; i < s->num_materials(); i++)
    for (int c : s->material_cells(i)) { auto const& l = s->cell_materials(c); bad += l.size() != 1 || l[0] != i; }
  bad += s->material_name(1) != "c" || s->material_name(2) != "d";
  printf("%d inconsistencies\n", bad);
  return bad != 0;
}
''')
S(id="v04-remove-drops-last-data", prop="V04", libs="state",
  edits=[("src/statemanager/JaliStateVector.h","    mydata_->erase(mydata_->begin()+m);","    std::swap((*mydata_)[m], mydata_->back());\n    mydata_->pop_back();")],
  needs="three or more materials after the removed one moved up, i.e. removal of a material that is not one of the last two",
  breaks="values of the last material appear under the number of the removed material",
  demo=r'''
#include "Mesh_simple.hh"
#include "JaliState.h"
#include <cstdio>
using namespace Jali;
int main() {
  std::shared_ptr<Mesh> m = std::make_shared<Mesh_simple>(std::vector<double>{0,1,2,3,4}, MPI_COMM_WORLD);
  auto s = State::create(m);
  const char* n[4] = {"a", "b", "c", "d"};
  for (int i = 0; i < 4; i++) s->add_material(n[i], {0, 1, 2, 3});
  auto& v = s->add<double, Mesh, MultiStateVector>("v", m, Entity_kind::CELL, Entity_type::ALL);
  for (int i = 0; i < 4; i++) for (int c = 0; c < 4; c++) v(i, c) = 10*i + c;
  s->rem_material(0);
  int bad = 0;
  for (int i = 0; i < 3; i++) for (int c = 0; c < 4; c++) bad += v(i, c) != 10*(i+1) + c;
  printf("%d wrong values\n", bad);
  return bad != 0;
}
''')
S(id="v05-kinds-after-an-empty-one", prop="V05", libs="state",
  edits=[("src/statemanager/JaliState.cc","    if (!num) continue;","    if (!num) break;")],
  needs="a mesh that stores fields on a kind of entity but none on a kind of lower dimension",
  breaks="importing stops at the first kind without fields",
  demo=r'''
#include "Mesh_simple.hh"
#include "JaliState.h"
#include <cstdio>
using namespace Jali;
struct Storing : Mesh_simple {
  std::map<std::string, std::vector<double>> f[20];
  using Mesh_simple::Mesh_simple;
  bool store_field(std::string name, Entity_kind k, double* d) { int n = num_entities(k, Entity_type::ALL); f[(int)k][name].assign(d, d + n); return true; }
  void get_field_info(Entity_kind k, int* num, std::vector<std::string>* names, std::vector<std::string>* types) const {
    names->clear(); types->clear();
    for (auto const& p : f[(int)k]) { names->push_back(p.first); types->push_back("DOUBLE"); }
    *num = names->size();
  }
  bool get_field(std::string name, Entity_kind k, double* d) const { auto i = f[(int)k].find(name); if (i == f[(int)k].end()) return false; std::copy(i->second.begin(), i->second.end(), d); return true; }
};
int main() {
  auto ms = std::make_shared<Storing>(std::vector<double>{0,1,2,3}, MPI_COMM_WORLD);
  std::shared_ptr<Mesh> m = ms;
  double x[3] = {1, 2, 3};
  { auto s = State::create(m); s->add("rho", m, Entity_kind::CELL, Entity_type::ALL, x); s->export_to_mesh(); }
  auto s = State::create(m);
  s->init_from_mesh();
  UniStateVector<double> v;
  bool ok = s->get("rho", m, Entity_kind::CELL, Entity_type::ALL, &v);
  printf("found %d\n", ok);
  return !(ok && v[0] == 1 && v[1] == 2 && v[2] == 3);
}
''')
S(id="g08-spherical-centroid-radius", prop="M07", libs="mesh",
  edits=[("src/mesh/Mesh.cc","""      *side_volume = (4.0/3.0) * M_PI * fabs(pow(scoords[1][0], 3) -
                                             pow(scoords[0][0], 3));""","""      *side_volume = (4.0/3.0) * M_PI * pow(fabs(vec0[0]), 2) *
          (scoords[0][0] + scoords[0][0] + scoords[1][0]);""")],
  needs="spherical geometry and a cell that does not start at the origin",
  breaks="the sides of a spherical shell do not add up to its volume",
  demo=r'''
#include "Mesh_simple.hh"
#include <cstdio>
#include <cmath>
using namespace Jali;
int main() {
  int bad = 0;
  Mesh_simple m({1, 2, 4}, MPI_COMM_WORLD, nullptr, true, true, true, true, true, 0, 0, 0, false, Partitioner_type::INDEX, JaliGeometry::Geom_type::SPHERICAL);
  for (int c = 0; c < 2; c++) {
    Entity_ID_List s; m.cell_get_sides(c, &s);
    double v = 0; for (int i : s) v += m.side_volume(i);
    bad += std::fabs(v - m.cell_volume(c)) > 1e-9;
  }
  printf("%d cells\n", bad);
  return bad != 0;
}
''')
S(id="m05-recomputed-area-kept", prop="M05", libs="mesh",
  edits=[("src/mesh/Mesh.cc","""int Mesh::compute_face_geometric_quantities() const {
  int nfaces = num_faces<Entity_type::ALL>();
""","""int Mesh::compute_face_geometric_quantities() const {
  int nfaces = num_faces<Entity_type::ALL>();
  int nold = face_areas.size();
"""),("src/mesh/Mesh.cc","    face_areas[i] = area;\n    face_centroids[i] = centroid;","    if (manifold_dim_ != 1 || i >= nold) face_areas[i] = area;\n    face_centroids[i] = centroid;")],
  needs="a cylindrical or spherical 1D mesh whose nodes are moved and refreshed",
  breaks="the areas of the faces of 1D meshes stay those of the first node positions",
  demo=r'''
#include "Mesh_simple.hh"
#include <cstdio>
#include <cmath>
using namespace Jali;
int main() {
  Mesh_simple m({1, 2, 4}, MPI_COMM_WORLD, nullptr, true, false, false, false, false, 0, 0, 0, false, Partitioner_type::INDEX, JaliGeometry::Geom_type::SPHERICAL);
  double x = 3;
  m.node_set_coordinates(1, &x);
  m.update_geometric_quantities();
  printf("%g\n", m.face_area(1));
  return std::fabs(m.face_area(1) - 4 * M_PI * 9) > 1e-9;
}
''')
S(id="m03-boundary-normal", prop="M03", libs="mesh",
  edits=[("src/mesh/Mesh.cc","""    face_get_coordinates(faceid, &fcoords);

    JaliGeometry::face1d_get_area(fcoords, geomtype, area);
    *centroid = fcoords[0];
    JaliGeometry::Point normal(space_dim_);
    normal.set(*area);
""","""    face_get_coordinates(faceid, &fcoords);

    JaliGeometry::face1d_get_area(fcoords, geomtype, area);
    *centroid = fcoords[0];
    JaliGeometry::Point normal(space_dim_);
    normal.set(geomtype == JaliGeometry::Geom_type::CARTESIAN ? 1.0 : fabs(*area)/(*area));
""")],
  needs="a 1D mesh in cylindrical or spherical geometry",
  breaks="face normals have unit length instead of the area of the face",
  demo=r"""
#include "Mesh_simple.hh"
#include <cstdio>
#include <cmath>
using namespace Jali;
int main() {
  int bad = 0;
  Mesh_simple m({1, 2, 4}, MPI_COMM_WORLD, nullptr, true, false, false, false, false, 0, 0, 0, false, Partitioner_type::INDEX, JaliGeometry::Geom_type::SPHERICAL);
  for (int f = 0; f < 3; f++) bad += std::fabs(JaliGeometry::norm(m.face_normal(f)) - m.face_area(f)) > 1e-9;
  printf("%d normals\n", bad);
  return bad != 0;
}
""")
S(id="s02-ghosts-not-in-map", prop="S02", libs="mesh",
  edits=[("src/mesh/MeshSet.cc","""    int nall = entityids_all_.size();
    for (int i = 0; i < nall; ++i)
      mesh2subset_[entityids_all_[i]] = i;
  }
}  // MeshSet::MeshSet""","""    int nall = entityids_owned_.size();
    for (int i = 0; i < nall; ++i)
      mesh2subset_[entityids_owned_[i]] = i;
  }
}  // MeshSet::MeshSet""")],
  needs="a set with an index map and ghost entities", breaks="ghost members have no index in the set",
  demo=r"""
#include "Mesh_simple.hh"
#include "MeshSet.hh"
#include <cstdio>
using namespace Jali;
int main() {
  auto m = std::make_shared<Mesh_simple>(std::vector<double>{0,1,2,3,4}, MPI_COMM_WORLD);
  auto a = make_meshset("a", *m, Entity_kind::CELL, Entity_ID_List{0, 1}, Entity_ID_List{3}, true);
  printf("%d\n", (int)a->index_in_set(3));
  return a->index_in_set(3) != 2;
}
""")
