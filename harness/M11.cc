// Names and validity of enumerated values.
//@ sources: err
//@ bounds: every value of the 8-bit representation of each enumeration
#include "sv.h"
#include <string>
#include "MeshDefs.hh"
using namespace Jali;
static void name(std::string const& got, const char* const* names, int first, int n, int v, const char* lab) {
  bool named = v >= first && v < first + n;
  if (named) sv_check(got == names[v - first], lab);
  else sv_check(got.empty(), "no-name-for-other-values");
  sv_obs_i("len", got.size());
}
extern "C" void sv_main() {
  static const char* K[] = {"Entity_kind::NODE", "Entity_kind::EDGE", "Entity_kind::FACE", "Entity_kind::CELL", "Entity_kind::SIDE", "Entity_kind::WEDGE", "Entity_kind::CORNER", "Entity_kind::FACET", "Entity_kind::BOUNDARY_FACE"};
  static const char* T[] = {"Entity_type::TYPE_UNKNOWN", "Entity_type::DELETED", "Entity_type::PARALLEL_OWNED", "Entity_type::PARALLEL_GHOST", "Entity_type::BOUNDARY_GHOST", "Entity_type::ALL"};
  static const char* Ce[] = {"Cell_type::CELLTYPE_UNKNOWN", "Cell_type::TRI", "Cell_type::QUAD", "Cell_type::POLYGON", "Cell_type::TET", "Cell_type::PRISM", "Cell_type::PYRAMID", "Cell_type::HEX", "Cell_type::POLYHED"};
  static const char* P[] = {"Partitioner_type::INDEX", "Partitioner_type::BLOCK", "Partitioner_type::METIS", "Partitioner_type::ZOLTAN_GRAPH", "Partitioner_type::ZOLTAN_RCB"};
  int e = sv_concretize(sv_int("enum", 0, 3));
  int v = sv_int("v", e < 2 ? -128 : 0, e < 2 ? 127 : 255);
  if (e == 0) {
    Entity_kind k = static_cast<Entity_kind>(v);
    name(Entity_kind_string(k), K, 0, 9, v, "entity-kind-name");
    sv_check(entity_valid_kind(k) == (k == Entity_kind::NODE || k == Entity_kind::EDGE || k == Entity_kind::FACE || k == Entity_kind::CELL), "entity-kind-valid");
  } else if (e == 1) {
    Entity_type t = static_cast<Entity_type>(v);
    name(Entity_type_string(t), T, -1, 6, v, "entity-type-name");
    if (t != Entity_type::TYPE_UNKNOWN)
      sv_check(valid_entity_type(t) == (t == Entity_type::DELETED || t == Entity_type::PARALLEL_OWNED || t == Entity_type::PARALLEL_GHOST || t == Entity_type::BOUNDARY_GHOST || t == Entity_type::ALL), "entity-type-valid");
  } else if (e == 2) {
    Cell_type t = static_cast<Cell_type>(v);
    name(Cell_type_string(t), Ce, 0, 9, v, "cell-type-name");
    sv_check(cell_valid_type(t) == (t == Cell_type::TRI || t == Cell_type::QUAD || t == Cell_type::POLYGON || t == Cell_type::TET || t == Cell_type::PRISM || t == Cell_type::PYRAMID || t == Cell_type::HEX || t == Cell_type::POLYHED), "cell-type-valid");
  } else {
    Partitioner_type t = static_cast<Partitioner_type>(v);
    name(Partitioner_type_string(t), P, 0, 5, v, "partitioner-name");
  }
}
