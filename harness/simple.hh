// Construction of generated meshes with symbolic size, extent and options.
#pragma once
#include "Mesh_simple.hh"
#include "meshcheck.hh"
#include <memory>
struct Box3 { double x0, y0, z0, x1, y1, z1; int nx, ny, nz; };
// requests: bit 0 faces, 1 edges, 2 sides, 3 wedges, 4 corners
inline std::shared_ptr<Jali::Mesh_simple> make3(Box3 const& b, bool faces = true, int ntiles = 0, int halo = 0,
    Jali::Partitioner_type pt = Jali::Partitioner_type::INDEX, JaliGeometry::GeometricModelPtr gm = nullptr) {
  return std::make_shared<Jali::Mesh_simple>(b.x0, b.y0, b.z0, b.x1, b.y1, b.z1, b.nx, b.ny, b.nz, MPI_COMM_WORLD, gm, faces, false, false, false, false, ntiles, halo, 0, false, pt);
}
inline std::shared_ptr<Jali::Mesh_simple> make1(std::vector<double> const& x, JaliGeometry::Geom_type g = JaliGeometry::Geom_type::CARTESIAN, bool edges = false,
    bool sides = false, bool wedges = false, bool corners = false, int ntiles = 0, int halo = 0, Jali::Partitioner_type pt = Jali::Partitioner_type::INDEX) {
  return std::make_shared<Jali::Mesh_simple>(x, MPI_COMM_WORLD, nullptr, true, edges, sides, wedges, corners, ntiles, halo, 0, false, pt, g);
}
