// The geometric model and the domain find exactly what was added to them.
//@ sources: geom err
//@ bounds: models and domains of dimension 0 to 4; up to R regions of dimension 0 to 3 (points, degenerate and full boxes, planes) with arbitrary identifiers in [0,6] and arbitrary two-character names over {a,b}, duplicates included; every lookup by name, identifier (also absent ones) and position; built by addition, from a list, or copied; R = 3 (thorough 4)
//@ quick: -DRR=3
//@ thorough: -DRR=4
#include "sv.h"
#include <vector>
#include <string>
#include "GeometricModel.hh"
#include "Domain.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "errors.hh"
using namespace JaliGeometry;
static std::string nm(int a, int b) { std::string s("xx"); s[0] = 'a' + a; s[1] = 'a' + b; return s; }
extern "C" void sv_main() {
  int dim = sv_concretize(sv_int("dim", 0, 4));
  bool domain = sv_concretize(sv_bool("domain"));
  GeometricModel* gm = nullptr; Domain* dm = nullptr;
  bool threw = false;
  try { if (domain) dm = new Domain(dim); else gm = new GeometricModel(dim); } catch (std::exception&) { threw = true; }
  sv_check(threw == (dim != 2 && dim != 3), "only-2d-and-3d");
  if (threw) {
    if (domain) {
      bool t = false;
      try { Domain d2(dim, std::vector<GeometricModelPtr>(), std::vector<RegionPtr>()); } catch (std::exception&) { t = true; }
      sv_check(t, "only-2d-and-3d");
    }
    return;
  }
  int n = sv_concretize(sv_int("n", 0, RR));
  std::vector<RegionPtr> in;
  int id[RR], c0[RR], c1[RR];
  for (int i = 0; i < n; i++) {
    int rd = sv_concretize(sv_int("rdim", 0, 3));
    int a = sv_int("c", 0, 1), b = sv_int("c", 0, 1), k = sv_int("id", 0, 6);
    RegionPtr r;
    if (rd == 0) r = new PointRegion(nm(a, b), k, Point(1, 2, 3));
    else if (rd == 2) r = new PlaneRegion(nm(a, b), k, Point(1, 2, 3), Point(0, 0, 1));
    else r = new BoxRegion(nm(a, b), k, Point(0, 0, 0), rd == 3 ? Point(1, 1, 1) : Point(2, 0, 0));
    sv_check(r->dimension() == (unsigned)rd, "region-dimension");
    bool t = false;
    try { if (domain) dm->Add_Free_Region(r); else gm->Add_Region(r); } catch (std::exception&) { t = true; }
    sv_check(t == (rd > dim), "refused-exactly-when-dimension-too-high");
    if (t) continue;
    id[in.size()] = k; c0[in.size()] = a; c1[in.size()] = b;
    in.push_back(r);
  }
  n = in.size();
  if (domain) {
    sv_check(dm->spatial_dimension() == (unsigned)dim, "dimension");
    GeometricModel g2(2), g3(3); GeometricModel *gs[2] = {&g2, &g3};
    std::vector<GeometricModelPtr> ok;
    for (int i = 0; i < 3; i++) {
      int w = sv_concretize(sv_int("model", 0, 1));
      bool t = false;
      try { dm->Add_Geometric_Model(gs[w]); } catch (std::exception&) { t = true; }
      sv_check(t == (w + 2 != dim), "model-refused-exactly-when-dimension-differs");
      if (!t) ok.push_back(gs[w]);
    }
    int how = sv_concretize(sv_int("how", 0, 2));
    Domain* d = dm;
    if (how == 1) d = new Domain(dim, ok, in);
    if (how == 2) d = new Domain(*dm);
    sv_check(d->spatial_dimension() == (unsigned)dim, "dimension");
    sv_check(d->Num_Free_Regions() == n && d->Num_Geometric_Models() == (int)ok.size(), "counts");
    for (int i = 0; i < n; i++) sv_check(d->Free_Region_i(i) == in[i], "region-by-position");
    for (size_t i = 0; i < ok.size(); i++) sv_check(d->Geometric_Model_i(i) == ok[i], "model-by-position");
    return;
  }
  int how = sv_concretize(sv_int("how", 0, 2));
  GeometricModel* g = gm;
  if (how == 1) g = new GeometricModel(dim, in);
  if (how == 2) g = new GeometricModel(*gm);
  sv_check(g->dimension() == (unsigned)dim, "dimension");
  sv_check(g->Num_Regions() == n, "counts");
  for (int i = 0; i < n; i++) sv_check(g->Region_i(i) == in[i], "region-by-position");
  int q = sv_int("qid", -1, 7), qa = sv_int("qc", 0, 1), qb = sv_int("qc", 0, 1);
  RegionPtr wi = nullptr, wn = nullptr;
  for (int i = n - 1; i >= 0; i--) {
    if (id[i] == q) wi = in[i];
    if ((c0[i] == qa) & (c1[i] == qb)) wn = in[i];
  }
  RegionPtr fi = g->FindRegion(q), fn = g->FindRegion(nm(qa, qb));
  sv_check(fi == wi, "find-by-id");
  sv_check(fn == wn, "find-by-name");
  sv_check(g->FindRegion(std::string("a")) == nullptr && g->FindRegion(std::string("")) == nullptr && g->FindRegion(std::string("aab")) == nullptr, "nothing-found-for-other-names");
  if (fi) sv_check(fi->id() == (unsigned)q, "found-region-has-the-id");
  if (fn) sv_check(fn->name() == nm(qa, qb), "found-region-has-the-name");
  sv_obs_i("f", (fi != nullptr) + 2 * (fn != nullptr));
}
