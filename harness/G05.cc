// Region objects and their copies keep identity, kind and parameters.
//@ sources: geom err
//@ bounds: box, plane, point, polygon, logical and labelled-set regions in 2D and 3D (boxes and points also 1D); identifier any integer in [0,2^31), both lifecycles, three-character names over {a..z}, coordinates any multiple of 1/4 in [-256,256]; logical regions with every operation given by name or value (unknown names included) and one to three components; copies and copies of copies
#include "sv.h"
#include <vector>
#include <string>
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "LogicalRegion.hh"
#include "LabeledSetRegion.hh"
using namespace JaliGeometry;
struct Lab : LabeledSetRegion {
  Lab(std::string a, unsigned b, std::string c, std::string d, std::string e, std::string f, LifeCycle_type l) : LabeledSetRegion(a, b, c, d, e, f, l) {}
  Lab(Lab const& o) : LabeledSetRegion(o) {}
  std::string file() const { return file_; }
  std::string format() const { return format_; }
};
static std::string name; static unsigned id; static LifeCycle_type lc;
static std::string str(const char* n) { std::string s("xyz"); for (int i = 0; i < 3; i++) s[i] = sv_int(n, 'a', 'z'); return s; }
static Point pt(int d) {
  double v[3];
  for (int i = 0; i < d; i++) v[i] = sv_grid("x", -1024, 1024, 2);
  if (d == 2) return Point(v[0], v[1]);
  if (d == 3) return Point(v[0], v[1], v[2]);
  Point p(1); p.set(v[0]); return p;
}
static bool same(Point const& a, Point const& b) {
  bool r = a.dim() == b.dim();
  for (int i = 0; i < a.dim(); i++) r = r & (a[i] == b[i]);
  return r;
}
static void basics(Region const& r, Region_type t) {
  sv_check(r.name() == name, "name");
  sv_check(r.id() == id, "identifier");
  sv_check(r.lifecycle() == lc, "lifecycle");
  sv_check(r.type() == t, "kind");
}
static void noGeometry(Region const& r, int d) {
  bool t = false;
  try { r.inside(pt(d)); } catch (Errors::Message&) { t = true; }
  sv_check(t, "untestable-membership-is-an-error");
}
extern "C" void sv_main() {
  int kind = sv_concretize(sv_int("kind", 0, 5));
  int d = sv_concretize(sv_int("d", kind == 0 || kind == 2 ? 1 : 2, 3));
  name = str("name"); id = sv_int("id", 0, 2147483647);
  lc = sv_concretize(sv_bool("temporary")) ? LifeCycle_type::TEMPORARY : LifeCycle_type::PERMANENT;
  Point q = pt(d);
  if (kind == 0) {
    Point a = pt(d), b = pt(d);
    BoxRegion r(name, id, a, b, lc), c(r), cc(c);
    BoxRegion* x[3] = {&r, &c, &cc};
    unsigned nd = d;
    for (int i = 0; i < d; i++) nd -= (a[i] == b[i]);
    for (int i = 0; i < 3; i++) {
      basics(*x[i], Region_type::BOX);
      sv_check(same(x[i]->point0(), a) && same(x[i]->point1(), b), "corners");
      sv_check(x[i]->dimension() == nd, "dimension");
    }
    sv_check(r.inside(q) == cc.inside(q), "copy-contains-the-same");
  } else if (kind == 1) {
    Point a = pt(d), b = pt(d);
    PlaneRegion r(name, id, a, b, lc), c(r), cc(c);
    PlaneRegion* x[3] = {&r, &c, &cc};
    for (int i = 0; i < 3; i++) {
      basics(*x[i], Region_type::PLANE);
      sv_check(same(x[i]->point(), a) && same(x[i]->normal(), b), "plane");
      sv_check(x[i]->dimension() == (unsigned)d - 1, "dimension");
    }
    sv_check(r.inside(q) == cc.inside(q), "copy-contains-the-same");
  } else if (kind == 2) {
    Point a = pt(d);
    PointRegion r(name, id, a, lc), c(r), cc(c);
    PointRegion* x[3] = {&r, &c, &cc};
    for (int i = 0; i < 3; i++) {
      basics(*x[i], Region_type::POINT);
      sv_check(same(x[i]->point(), a), "point");
      sv_check(x[i]->dimension() == 0, "dimension");
    }
    sv_check(r.inside(q) == cc.inside(q), "copy-contains-the-same");
  } else if (kind == 3) {
    std::vector<Point> v; Point o = pt(d);
    static const double t[3][3] = {{0, 0, 0}, {3, 1, 0}, {1, 4, 2}};
    int n = d;
    for (int i = 0; i < n; i++) { Point p(o); for (int k = 0; k < d; k++) p[k] = p[k] + t[i][k]; v.push_back(p); }
    PolygonRegion r(name, id, n, v, lc), c(r), cc(c);
    PolygonRegion* x[3] = {&r, &c, &cc};
    for (int i = 0; i < 3; i++) {
      basics(*x[i], Region_type::POLYGON);
      sv_check(x[i]->num_points() == (unsigned)n && x[i]->points().size() == (size_t)n, "number-of-points");
      for (int k = 0; k < n; k++) sv_check(same(x[i]->points()[k], v[k]), "polygon-points");
      double nn = 0;
      for (int k = 0; k < d; k++) nn = nn + x[i]->normal()[k] * x[i]->normal()[k];
      sv_check_close(nn, 1.0, 1e-9, "unit-normal");
      for (int j = 1; j < n; j++) { double s = 0; for (int k = 0; k < d; k++) s = s + x[i]->normal()[k] * t[j][k]; sv_check_close(s, 0.0, 1e-9, "normal-perpendicular"); }
    }
    sv_check(r.inside(v[1]) == cc.inside(v[1]), "copy-contains-the-same");
  } else if (kind == 4) {
    std::vector<std::string> comp;
    int n = sv_concretize(sv_int("n", 1, 3));
    for (int i = 0; i < n; i++) comp.push_back(str("comp"));
    int op = sv_concretize(sv_int("op", 0, 4));
    static const char* ON[5] = {"Complement", "Union", "Intersect", "Subtract", "union"};
    static const Bool_type OT[5] = {Bool_type::COMPLEMENT, Bool_type::UNION, Bool_type::INTERSECT, Bool_type::SUBTRACT, Bool_type::NOBOOLEAN};
    LogicalRegion* r = nullptr;
    if (sv_concretize(sv_bool("byname"))) {
      bool t = false;
      try { r = new LogicalRegion(name, id, std::string(ON[op]), comp, lc); } catch (Errors::Message&) { t = true; }
      sv_check(t == (op == 4), "unknown-operation-refused");
      if (t) return;
    } else r = new LogicalRegion(name, id, OT[op], comp, lc);
    LogicalRegion c(*r), cc(c);
    LogicalRegion* x[3] = {r, &c, &cc};
    for (int i = 0; i < 3; i++) {
      basics(*x[i], Region_type::LOGICAL);
      sv_check(x[i]->operation() == OT[op], "operation");
      sv_check(x[i]->component_regions().size() == (size_t)n, "components");
      for (int k = 0; k < n; k++) sv_check(x[i]->component_regions()[k] == comp[k], "components");
      sv_check(x[i]->dimension() == r->dimension(), "dimension");
      noGeometry(*x[i], d);
    }
  } else {
    std::string es = str("entity"), fi = str("file"), fo = str("format"), la = str("label");
    Lab r(name, id, es, fi, fo, la, lc), c(r), cc(c);
    Lab* x[3] = {&r, &c, &cc};
    for (int i = 0; i < 3; i++) {
      basics(*x[i], Region_type::LABELEDSET);
      sv_check(x[i]->label() == la && x[i]->entity_str() == es && x[i]->file() == fi && x[i]->format() == fo, "labelled-set-parameters");
      sv_check(x[i]->dimension() == r.dimension(), "dimension");
      noGeometry(*x[i], d);
    }
  }
  sv_obs_i("id", id);
}
