// Requests for sets that do not exist or make no sense.
//@ sources: mesh geom err
//@ bounds: row of segments, grid of 2x2 quadrilaterals, planar surface in 3D, two hexahedra, with or without a geometric model; regions box, plane, polygon, point, labelled set (of cells, faces, nodes or edges, with or without scope), and the four operations on two such regions of which the second may be missing, in either order; a set asked for under the region's name, another name or no name, for each of 11 kinds of entity, by building it, by finding it with and without permission to create it, and by initialising all sets with an explicit request of that kind; any position of the box in one direction
#include "sv.h"
#include "tmesh.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "LabeledSetRegion.hh"
#include "LogicalRegion.hh"
#include "GeometricModel.hh"
#include "errors.hh"
using namespace JaliGeometry;
static Point at(int sd, double a, double b, double c) { Point p(sd); p[0] = a; if (sd > 1) p[1] = b; if (sd > 2) p[2] = c; return p; }
static const char* const LABEL[8] = {"CELL", "FACE", "NODE", "EDGE", "Entity_kind::CELL", "Entity_kind::FACE", "Entity_kind::NODE", "Entity_kind::EDGE"};
static const Entity_kind LK[4] = {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE, Entity_kind::EDGE};
// can a region of this type hold entities of this kind at all
static bool able(int type, int lab, Entity_kind k) {
  bool c = k == Entity_kind::CELL, f = k == Entity_kind::FACE, n = k == Entity_kind::NODE;
  if (type == 0 || type == 1) return c || f || n;
  if (type == 2) return f || n;
  if (type == 3) return c || n;
  return k == LK[lab % 4] && k != Entity_kind::EDGE;
}
extern "C" void sv_main() {
  int what = sv_concretize(sv_int("mesh", 0, 3)), type = sv_concretize(sv_int("region", 0, 8)), how = sv_concretize(sv_int("how", 0, 3));
  bool model = sv_concretize(sv_int("with-a-model", 0, 1));
  Topo t = what == 0 ? row({0, 1, 3, 4}) : what == 1 ? grid2(2, 2) : what == 2 ? surface(grid2(2, 1), 0.75, 0) : hex2();
  int sd = t.sd;
  sv_assume(!(what == 0 && type == 2));                  // no polygons in one dimension
  sv_assume(model || type == 0);
  MeshOpts o; o.edges = sd != 1;
  bool logical = type > 4;
  int lab = 0;
  if (type == 4) lab = sv_concretize(sv_int("label-kind", 0, 7));
  Region* r = nullptr;
  std::vector<RegionPtr> rs;
  bool missing = false, swapped = false;
  if (type == 0 || logical) { double a = !logical || how == 0 ? sv_grid("a", -8, 72, 4) : 1.0625; r = new BoxRegion(logical ? "A" : "R", 7, at(sd, a, -0.875, -0.875), at(sd, 5.0625, 3.0625, 7.0625)); for (int i = 0; i <= 16; i++) { double h = i * 0.5; sv_assume((a - h > 1e-3) | (h - a > 1e-3)); } }
  else if (type == 1) r = new PlaneRegion("R", 7, at(sd, 1, 0, 0), at(sd, 1, 0, 0));
  else if (type == 2) { std::vector<Point> q = {at(sd, 1, -1, -1), at(sd, 1, 4, -1)}; if (sd == 3) { q.push_back(at(sd, 1, 4, 9)); q.push_back(at(sd, 1, -1, 9)); } r = new PolygonRegion("R", 7, q.size(), q); }
  else if (type == 3) r = new PointRegion("R", 7, at(sd, 0.5625, 0.25, 0.421875));
  else r = new LabeledSetRegion("R", 7, LABEL[lab], "file", "format", "10");
  rs.push_back(r);
  if (logical) {
    missing = sv_concretize(sv_int("second-missing", 0, 1)); swapped = sv_concretize(sv_int("swapped", 0, 1));
    lab = sv_concretize(sv_int("second-kind", 0, 3));
    if (!missing) rs.push_back(new LabeledSetRegion("B", 8, LABEL[lab], "file", "format", "10"));
    static const Bool_type OP[4] = {Bool_type::UNION, Bool_type::INTERSECT, Bool_type::SUBTRACT, Bool_type::COMPLEMENT};
    std::vector<std::string> l = {"A", "B"};
    if (swapped) std::swap(l[0], l[1]);
    rs.push_back(new LogicalRegion("R", 9, OP[type - 5], l));
  }
  GeometricModel* gm = model ? new GeometricModel(sd == 1 ? 3 : sd, rs) : nullptr;
  o.gm = gm;
  TestMesh m(t, o);
  static const Entity_kind KIND[11] = {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER, Entity_kind::BOUNDARY_FACE, Entity_kind::UNKNOWN_KIND, Entity_kind::ANY_KIND, Entity_kind::FACET};
  Entity_kind k = KIND[sv_concretize(sv_int("kind", 0, 10))];
  static const char* const NAME[3] = {"R", "Q", ""};
  char const* nm = NAME[how == 3 ? 0 : sv_concretize(sv_int("name", 0, 2))];
  bool known = model && nm[0] == 'R';
  bool ok = known && (logical ? !missing && able(0, 0, k) && able(4, lab, k) : able(type, lab, k));
  std::shared_ptr<Jali::MeshSet> s;
  bool refused = false, named = false;
  try {
    if (how == 0) s = m.build_set_from_region(nm, k);
    else if (how == 1) s = m.find_meshset_from_region(nm, k, true);
    else if (how == 2) s = const_cast<TestMesh const&>(m).find_meshset_from_region(nm, k);
    else { std::map<std::string, std::vector<Entity_kind>> q; q[nm] = {k}; sv_assume(!(logical && missing)); m.init_sets_from_geometric_model(q); s = m.find_meshset(nm, k); }
  } catch (Errors::Message& e) { refused = true; named = std::string(e.what()).find(known && logical && missing ? "B" : nm) != std::string::npos; }
  sv_check(!(refused && s), "refused-or-answered");
  if (s) sv_check(s->name() == nm && s->kind() == k && &s->mesh() == &m && m.find_meshset(nm, k) == s, "set-as-requested");
  if (how == 0) { sv_check(ok == (s != nullptr), "set-exactly-when-there-can-be-one"); sv_check(!(!known || (logical && missing && able(0, 0, k))) || (refused && named), "missing-region-reported-by-name"); }
  else if (how == 1) { sv_check(!s || ok, "no-set-that-cannot-be"); sv_check(known || (!refused && !s), "unknown-name-finds-nothing"); }
  else if (how == 2) sv_check(!s && !refused, "found-nothing-as-nothing-was-built");
  else sv_check(!s || ok, "no-set-that-cannot-be");
  for (Entity_kind q : KIND) {
    if (!known) sv_check(!m.valid_region_name(nm, q), "unknown-region-is-invalid");
    if (known && type == 4) sv_check(m.valid_region_name(nm, q) == (q == LK[lab % 4]), "labelled-set-is-of-its-kind");
    if (q != k || !s) { if (how < 3) sv_check(!m.find_meshset(nm, q), "no-other-set"); }
  }
  if (!logical && how < 3) sv_check(m.num_sets() == (s ? 1 : 0), "no-further-sets");
  if (logical) for (auto const& e : m.sets()) sv_check(e->name() == "R" || e->name() == "A" || e->name() == "B", "only-sets-of-regions");
  sv_cover(refused ? "refused" : s ? "answered" : "nothing");
}
