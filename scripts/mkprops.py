#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script only for readability)."""
import json, os
P = []
def p(id, title, stmt, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": stmt,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

MS = "src/mesh/mesh_simple/Mesh_simple.cc"; MC = "src/mesh/Mesh.cc"; MH = "src/mesh/Mesh.hh"
GEO = "src/geometry/Geometry.cc"

# ---------------------------------------------------------------- generated meshes
p("M01", "Adjacency tables of a generated mesh are complete and mutually inverse",
  "In every generated mesh (block of hexahedra or row of segments) the numbers of cells, faces and nodes are those of the requested grid, and the adjacency answers agree with each other in both directions: a face lists a cell exactly when that cell lists the face, and a node lists a cell or face exactly when that cell or face lists the node. Every answer names existing entities, without duplicates, and every face has one or two cells (one exactly on the domain boundary).",
  ["inputs", "configurations"], "all cell counts in each direction, every entity of the mesh, every adjacency query",
  "Tests compare hand-written tables on one or two fixed small grids and never check node-to-face answers against face-to-node answers.",
  [MS, "src/mesh/mesh_simple/Mesh_simple.hh", MC],
  [("structured index functions and adjacency tables built cell by cell", MS + " update_internals_"), ("cached adjacency", MC + " cache_cell2face_info, cache_face2cell_info")],
  ["cell_get_faces_and_dirs", "cell_get_nodes", "face_get_cells", "face_get_nodes", "node_get_cells", "node_get_faces", "num_entities"])
p("M02", "A generated mesh fills exactly the requested domain",
  "The nodes of a generated mesh are the grid points of the requested box (or the requested list of 1D coordinates), every cell has positive volume, the cell and face coordinates are the coordinates of their nodes, and the volumes of the cells add up to the volume of the requested domain. In cylindrical and spherical 1D geometries the volumes and face areas are those of the corresponding shells.",
  ["inputs", "configurations"], "all domain extents and cell counts within the bounds, every 1D geometry type",
  "Tests use unit-cube style extents with a couple of resolutions; the sum and positivity are universal statements over all extents and spacings.",
  [MS, MC, GEO],
  [("node coordinates by index arithmetic", MS), ("cell geometry", MC + " compute_cell_geometry"), ("1D shell volumes", GEO + " segment_get_vol_centroid, face1d_get_area")],
  ["node_get_coordinates", "cell_get_coordinates", "cell_volume", "cell_centroid", "face_area"])
p("M03", "Face normals are consistently oriented and close every cell",
  "For every cell the outward normals of its faces, weighted by area, add up to zero (in Cartesian geometry), each has the length of the reported face area, and each points from the cell centre to the outside. The two cells sharing a face see exactly opposite outward normals, and the direction flags reported with the faces of a cell agree with those normals.",
  ["inputs", "configurations"], "all meshes within the bounds with arbitrary face orientations and cell orders, all admissible node positions",
  "Tests check fixed normals on fixed meshes with one numbering; orientation handling depends on the combination of face direction and cell order.",
  [MC, MS, GEO], [("outward normal selection by direction flag", MC + " face_normal, compute_face_geometry"), ("normal accumulation", GEO + " polygon_get_area_centroid_normal")],
  ["face_normal(face, cached, cell, orientation)", "face_area", "cell_get_faces_and_dirs", "face_get_cells"])
p("M04", "Cell and face measures equal those of the geometric shape they describe",
  "For any planar-faced cell the reported volume, centroid, face area and face centroid are those of the polygon or polyhedron spanned by its node coordinates, no matter how its faces are ordered or oriented. Reported edge vectors and lengths are the difference of the end-node coordinates and its length.",
  ["inputs", "configurations"], "all node positions within the bounds giving valid cells, all numberings",
  "Tests check a few fixed cells; the statement quantifies over all coordinates and all orientations of the same cell.",
  [MC, GEO], [("cell geometry in 1D/2D/3D", MC + " compute_cell_geometry, compute_face_geometry, compute_edge_geometry")],
  ["cell_volume", "cell_centroid", "face_area", "face_centroid", "edge_vector", "edge_length", "edge_centroid"])
p("M05", "Geometric queries reflect the current node positions after an update",
  "After nodes are moved and the mesh's geometric quantities are refreshed, every geometric query (cells, faces, edges, sides, wedges, corners, including normals and volumes) answers exactly what a freshly built mesh with the moved nodes would answer, however many times nodes were moved before. Queries asked to recompute rather than use stored values give these answers even before the refresh.",
  ["histories", "inputs"], "all sequences of moves and refreshes within the bound, all node positions within the bound",
  "Tests move one node once on one mesh and look at a few cell and face quantities; stale entries appear only for some entity kinds after a second refresh.",
  [MC, MH], [("recomputation of cached quantities", MC + " update_geometric_quantities, compute_*_geometric_quantities")],
  ["node_set_coordinates", "update_geometric_quantities", "cell_volume", "face_normal", "side_facet_normal", "wedge_volume", "corner_volume"],
  state=[("cached geometric vectors", "one entry per entity, must be overwritten by each refresh", MH)])
p("M06", "Sides, wedges and corners form a consistent subdivision of every cell",
  "Every cell is subdivided into sides, each side into two wedges, and the wedges of a cell are grouped into corners, one per node of the cell: parent and child queries are mutually inverse, every side/wedge/corner belongs to exactly one cell, and the wedges of a corner touch the corner's node. Neighbour queries are symmetric: the opposite of the opposite and the adjacent of the adjacent is the entity itself, an opposite lies across the same face in the other cell, and is absent exactly on boundary faces.",
  ["inputs", "configurations"], "all meshes within the bound in 1D, 2D and 3D with arbitrary orientation of edges and faces and arbitrary entity numbering",
  "The side, wedge and corner tests need a mesh framework that is not available in every build and use one regular mesh with one numbering.",
  [MC, MH], [("construction of sides, wedges and corners", MC + " cache_side_info, cache_wedge_info, cache_corner_info")],
  ["cell_get_sides", "side_get_wedge", "wedge_get_corner", "corner_get_wedges", "node_get_corners", "side_get_opposite_side", "wedge_get_opposite_wedge", "wedge_get_adjacent_wedge"])
p("M07", "Sub-cell volumes are positive and add up to the cell volume",
  "In every valid cell the volumes of its sides, of its wedges and of its corners are each positive and each add up to the volume of the cell; the two wedges of a side share its volume equally and a corner has the volume of its wedges. Coordinates reported in positive-volume order form a shape of positive volume.",
  ["inputs", "configurations"], "all node positions within the bounds giving valid cells, all orientations and numberings, 1D to 3D",
  "Tests check equal shares on one regular mesh with one numbering; sign errors appear only for particular orientations.",
  [MC, MH], [("sub-cell geometry", MC + " compute_side_geometry, compute_corner_geometry, side_get_coordinates, wedge_get_coordinates")],
  ["side_volume", "wedge_volume", "corner_volume", "side_get_coordinates", "wedge_get_coordinates", "cell_volume"])
p("M08", "Sub-cell facet normals are outward and balance",
  "The normal of the facet of a side or wedge on the cell face points out of the cell, the facet normals of all sides of a face add up to the outward area-weighted normal of the face, and the facets of adjoining sub-cells on the interior surface see opposite normals. Each normal has the magnitude of the facet's area.",
  ["inputs", "configurations"], "all node positions within the bounds giving valid cells, all orientations and numberings",
  "Tests check a dot product sign on one mesh; orientation errors need particular combinations of edge and face direction.",
  [MC, MH], [("facet normals", MC + " compute_side_geometry, wedge_facet_normal")], ["side_facet_normal", "wedge_facet_normal", "face_normal"])
p("M09", "Entity counts, id lists and ownership types agree",
  "For every entity kind the number reported for a parallel type equals the length of the corresponding id list, the lists of owned, ghost and boundary-ghost entities are disjoint and together form the list of all entities, and the type reported for an entity is the one whose list contains it. A side, wedge or corner has the type of the cell it lies in.",
  ["inputs", "configurations"], "all meshes within the bound with any distribution of owned, ghost and boundary-ghost entities",
  "Entity count tests require a parallel mesh framework; here serial meshes have no ghosts, so the tests that run never see mixed types.",
  [MH, MC], [("type tables", MC + " cache_type_info"), ("templated id lists and counts", MH)], ["num_entities", "nodes()/faces()/cells() lists", "entity_get_type"])
p("M10", "Neighbour queries return exactly the entities of the requested type",
  "Cell-to-cell neighbour queries through faces or nodes return exactly the distinct other cells sharing a face or node with the given cell, and upward queries from nodes and faces return exactly the incident entities, in every case restricted to the requested parallel type. The faces at a node within a cell are those incident to both.",
  ["inputs", "configurations"], "all meshes within the bound, all entities, all parallel types",
  "Tests list neighbours for a few entities of one mesh with a single type.",
  [MC, MS], [("adjacency with type filter", MC + " face_get_cells, node_get_cell_faces; " + MS + " cell_get_face_adj_cells, cell_get_node_adj_cells")],
  ["face_get_cells", "node_get_cells", "node_get_faces", "node_get_cell_faces", "cell_get_face_adj_cells", "cell_get_node_adj_cells"])
p("M11", "Entity kind and type names and validity tests match their values",
  "Every entity kind, entity type, cell type and similar enumerated value is printed under its own name, and validity tests accept exactly the values they are meant for: of the kinds, those of mesh entities proper (node, edge, face, cell), of the types, all but the unknown one.",
  ["inputs"], "all representable values of each enumeration",
  "No test prints every value; an off-by-one table stays invisible for the values used.",
  ["src/mesh/MeshDefs.hh"], [("name tables", "src/mesh/MeshDefs.hh")], ["Entity_kind_string", "Entity_type_string", "Cell_type_string", "valid_entity_kind", "valid_entity_type"])
p("M12", "Edge, face and cell edge lists are consistent and correctly directed",
  "When edges are requested, the edges of a face and of a cell are exactly the edges whose end nodes they contain, each listed once, and the direction reported with an edge tells whether walking the boundary in the reported order traverses the edge from its first to its second node. Asking with and without directions gives the same lists. (In one dimension, where edges and faces are both points, the edges of faces are left open.)",
  ["inputs", "configurations"], "all meshes within the bound with arbitrary edge and face orientation",
  "Edges exist only in frameworks the available tests do not exercise, with one numbering.",
  [MC, MH], [("edge caches", MC + " cache_cell2edge_info, cache_face2edge_info, cell_get_edges, face_get_edges_and_dirs")], ["cell_get_edges", "cell_2D_get_edges_and_dirs", "face_get_edges_and_dirs", "edge_get_nodes"])
# ---------------------------------------------------------------- tiles / partitions
p("T01", "Block partitioning is an exact disjoint cover of the structured grid",
  "Splitting a structured grid of cells into a requested number of blocks yields exactly that number of non-empty boxes which do not overlap and together contain every cell of the grid exactly once, whenever the grid has enough cells to allow it. Partitioning always terminates and reports unusable requests as errors.",
  ["inputs"], "all grid sizes in 1D, 2D and 3D and all block counts within the bounds",
  "The test enumerates three grids and two block counts.",
  ["src/mesh/block_partition.cc"], [("recursive bisection of index limits", "src/mesh/block_partition.cc block_partition_regular_mesh")], ["block_partition_regular_mesh"])
p("T02", "Every partitioner assigns each owned cell to exactly one part",
  "Whatever partitioner is chosen and whatever labels an external graph partitioner returns, asking a mesh for tiles puts every owned cell into exactly one tile as an owned cell, invents no cells, and creates no more tiles than requested. The tile recorded for a cell is the tile that lists the cell as owned.",
  ["inputs", "configurations"], "all mesh sizes, tile counts and partitioners within the bounds, all labelings an external partitioner may return",
  "Tests try one mesh with one partitioner per case; external partitioners are only seen with the labels they happen to return.",
  [MC, "src/mesh/MeshTile.cc"], [("partition dispatch and tile construction", MC + " get_partitioning*, build_tiles")], ["tiles()", "MeshTile::cells", "master_tile_ID_of_cell", "num_tiles"])
p("T03", "Tiles own each entity once and their halos have exactly the requested depth",
  "Each node, face, edge, side, wedge and corner of an owned cell is owned by exactly one of the tiles that contain it in their owned cells, namely the one recorded as its master tile, and the ghost cells of a tile are exactly the cells within the requested number of node-neighbour layers around its owned cells. Lower-dimensional entities listed by a tile are exactly those of its owned and ghost cells, and the counts equal the list lengths.",
  ["inputs", "configurations"], "all meshes, partitions of the cells, entity requests and halo depths within the bounds",
  "Tile tests use one mesh, one partition, and one layer.",
  ["src/mesh/MeshTile.cc", "src/mesh/MeshTile.hh", MC], [("tile entity lists", "src/mesh/MeshTile.cc constructor, get_halo"), ("master tile table", MC)], ["MeshTile::cells/nodes/faces/sides", "MeshTile::num_entities", "master_tile_ID_of_*"])
# ---------------------------------------------------------------- mesh sets
p("S01", "Union, intersection, difference and complement of sets are exact",
  "The union, intersection, difference and complement of mesh sets contain exactly the owned and ghost entities set algebra prescribes, each once, with owned entities listed before ghosts. The operands are left unchanged, including their names.",
  ["inputs"], "all sets over meshes within the bounds, including empty, overlapping and identical operands, with owned and ghost entities",
  "Set tests use a handful of named sets without ghosts.",
  ["src/mesh/MeshSet.cc"], [("set operations", "src/mesh/MeshSet.cc merge, intersect, subtract, complement")], ["merge", "intersect", "subtract", "complement", "MeshSet::entities"])
p("S02", "Changing a set keeps its lists and its index map consistent",
  "After any sequence of additions (of entities not in the set yet), removals and a final clearing, a set contains exactly the entities added and not removed, without duplicates, its list of all entities is the owned list followed by the ghost list, and the position reported for an entity is where it stands in that list (and none for entities outside the set).",
  ["histories", "inputs"], "all sequences of single and bulk additions, removals and clears within the bound, on sets with owned and ghost entities, with and without index map",
  "Tests add and remove one batch of owned entities; inconsistencies need mixed ghosts, repeated operations or removal of particular positions.",
  ["src/mesh/MeshSet.cc", "src/mesh/MeshSet.hh"], [("incremental maintenance of lists and reverse map", "src/mesh/MeshSet.cc add_entity, rem_entity, add_entities, rem_entities, clear")],
  ["add_entity", "rem_entity", "add_entities", "rem_entities", "clear", "entities", "index_in_set"])
p("S03", "A set defined by a geometric region holds exactly the entities inside it",
  "The cell set of a box or other solid region holds exactly the cells whose centroid is inside, its face set exactly the faces whose centroid is inside, the face set of a planar region exactly the faces lying on it, and the node set exactly the nodes inside; a point region selects the cells containing the point or the nodes at it. Owned and ghost members are separated by their type, and asking again returns the same set.",
  ["inputs", "configurations"], "all region parameters and meshes within the bounds, all entity kinds",
  "Set tests check a few fixed regions in one file mesh that needs an unavailable framework.",
  [MC, "src/geometry/Region.hh"], [("set construction", MC + " build_set_from_region, get_set_entities")], ["get_set_entities", "find_meshset_from_region", "get_set_size"])
p("S04", "Logical regions give the set algebra of the component regions' sets",
  "The set of a logical region is the union, intersection, difference or complement, as its operation says, of the sets of the regions it names, and building it leaves the sets of those regions present under their own names and with their own members. Nested logical regions compose accordingly.",
  ["inputs", "configurations"], "all operations, component regions, nestings and entity kinds within the bounds, in any order of requests",
  "One logical region per operation is tested, on a mesh that needs an unavailable framework.",
  [MC, "src/geometry/LogicalRegion.cc", "src/mesh/MeshSet.cc"], [("logical set construction", MC + " build_set_from_region")], ["get_set_entities", "find_meshset_from_region"])
p("S05", "Set queries respect the requested parallel type and tile",
  "The entities of a set requested for a mesh, or for one of its tiles, with a parallel type are exactly the members of the set which are of that type in the mesh or tile, and the reported size is their number. Looking up a set by name finds the set exactly when one with that name (and kind) exists.",
  ["inputs", "configurations"], "all sets, tiles and types within the bounds",
  "Tests read a set on the whole mesh with one type.",
  [MC, "src/mesh/MeshTile.cc"], [("set retrieval and filtering", MC + " get_set_entities; MeshTile::get_set_entities")], ["Mesh::get_set_entities", "Mesh::get_set_size", "MeshTile::get_set_entities", "find_meshset"])
p("S06", "Requests for sets that cannot exist are refused or find nothing",
  "Asking a mesh to build the set of a region that does not exist (because the model has none of that name, because a logical region names one that is missing, or because the mesh has no geometric model) is reported as an error naming that region; asking for a set of a kind of entity the region cannot describe is refused or gives no set. Such a request never crashes, never returns a set other than the one requested, and leaves no set that does not belong to a region behind; looking up such a set finds nothing.",
  ["inputs", "configurations"], "all region types, operations, kinds of entity, names and ways of asking within the bounds, including combinations that make no sense",
  "Tests only ask for sets that exist.",
  [MC], [("set construction and its refusals", MC + " build_set_from_region, valid_region_name, find_meshset_from_region, init_sets_from_geometric_model")], ["build_set_from_region", "find_meshset_from_region", "valid_region_name", "init_sets_from_geometric_model"])
# ---------------------------------------------------------------- geometry
p("G01", "Polyhedron volume and centroid are exact and independent of description",
  "For any polyhedron with planar faces described by its faces, the computed volume and centroid are those of the solid, whatever the order of the faces, the starting node of each face, and consistently for translated copies. Reversing all face orientations does not change the magnitude of the volume or the centroid.",
  ["inputs"], "all coordinates and face orders within the bound giving a valid polyhedron",
  "Tests compute a cube and a few fixed shapes.",
  [GEO], [("decomposition into tetrahedra", GEO + " polyhed_get_vol_centroid")], ["polyhed_get_vol_centroid"])
p("G02", "Polygon area, centroid and normal are exact and consistently oriented",
  "For any planar polygon the computed area and centroid are those of the polygon (signed as documented in 2D), the 3D normal is perpendicular to it with the length of its area, and neither depends on the starting vertex; reversing the vertex order flips the normal. Degenerate input never produces an area of the wrong sign.",
  ["inputs"], "all polygon vertices within the bound, 2D and 3D",
  "Tests compute a triangle, a square and one concave shape.",
  [GEO], [("fan decomposition", GEO + " polygon_get_area_centroid_normal")], ["polygon_get_area_centroid_normal"])
p("G03", "Point-in-polygon and point-in-polyhedron tests are exact",
  "A point strictly inside a polygon or a convex polyhedron is reported inside and a point strictly outside is reported outside, regardless of the vertex order, starting vertex, order of the faces and number of vertices of each face.",
  ["inputs"], "all polygons/polyhedra and query points within the bounds (points on the boundary excepted)",
  "Tests try a handful of points on two fixed polygons and no polyhedron with triangular faces.",
  [GEO], [("crossing number and tetrahedron sign tests", GEO + " point_in_polygon, point_in_polyhed")], ["point_in_polygon", "point_in_polyhed"])
p("G04", "Box, plane, point and polygon regions contain exactly their points",
  "A box region contains a point exactly when every coordinate lies between those of its corners, whichever opposite corners are given; a plane region exactly the points on the plane whatever the length of the given normal; a point region exactly its point; and a polygon region exactly the points of the planar polygon, whatever its orientation in space (all up to the stated small tolerance).",
  ["inputs"], "all region parameters and query points within the bounds",
  "Tests construct one region of each kind; orientation-dependent mistakes appear only for other orientations.",
  ["src/geometry/BoxRegion.cc", "src/geometry/PlaneRegion.cc", "src/geometry/PointRegion.cc", "src/geometry/PolygonRegion.cc"],
  [("inside tests", "src/geometry/*Region.cc inside")], ["Region::inside", "BoxRegion::is_degenerate"])
p("G05", "Region objects and copies keep their identity, kind and parameters",
  "Every region reports the name, identifier, kind, dimension, lifecycle and parameters it was created with, a copy of a region reports and contains the same as the original, and regions whose membership cannot be tested geometrically say so with an error.",
  ["inputs"], "all region kinds and parameters within the bounds",
  "Copies are not tested for every region kind.",
  ["src/geometry/Region.cc", "src/geometry/LogicalRegion.cc", "src/geometry/LabeledSetRegion.cc"], [("region constructors", "src/geometry/*Region.cc")], ["Region accessors", "copy constructors"])
p("G06", "The geometric model finds exactly the regions added to it",
  "A geometric model or domain (of dimension 2 or 3) accepts exactly the regions whose dimension does not exceed its own; a domain accepts exactly the geometric models of its own dimension. Afterwards it counts them correctly and finds each by position, and a geometric model finds by a name or identifier the first region added with it and nothing for a name or identifier never added. A copy, or one constructed from a list of such regions, is equivalent to one built by adding them one by one.",
  ["inputs", "histories"], "all sequences of additions and lookups within the bound, all dimensions",
  "Tests add two or three regions and look one up.",
  ["src/geometry/GeometricModel.cc", "src/geometry/Domain.cc"], [("region list with dimension checks", "src/geometry/GeometricModel.cc Add_Region, FindRegion")], ["Add_Region", "FindRegion", "Num_Regions", "Domain::Add_Geometric_Region"])
p("G07", "Point arithmetic satisfies vector-space laws in every dimension",
  "Sums, differences, scalings, dot and cross products and norms of points are those of Euclidean vectors of the same dimension, compound and plain operators agree, and no operation reads or changes coordinates beyond the point's dimension or alters its operands.",
  ["inputs"], "all coordinates within the bound, dimensions 1 to 3",
  "Tests check one numeric example per operator.",
  ["src/geometry/Point.hh"], [("inline operators", "src/geometry/Point.hh")], ["operator+ - * / ^", "norm", "L22", "set"])
p("G08", "Segment and 1D face measures follow the selected curvilinear geometry",
  "For one-dimensional cells the volume is the length in Cartesian, the annulus area in cylindrical and the shell volume in spherical geometry, the 1D face measure is the matching surface area, and volumes of adjacent segments add up to the volume of their union.",
  ["inputs"], "all segment end points within the bound, every geometry type",
  "Tests use one mesh per geometry type.",
  [GEO], [("1D formulas", GEO + " segment_get_vol_centroid, face1d_get_area")], ["segment_get_vol_centroid", "face1d_get_area"])
# ---------------------------------------------------------------- state
p("V01", "State fields are found exactly by name, type, kind and domain",
  "A field added to the state manager is afterwards found by its name with the same data type, domain, entity kind and type (or wildcards for them), lookups with a different name, data type, domain or kind find nothing, and adding a field that already exists leaves the existing one untouched and returns it. Iterating over the fields of an entity kind visits exactly the fields defined on that kind, in the order added.",
  ["histories", "inputs"], "all sequences of additions and lookups within the bound over names, kinds, types and value types",
  "State tests need a mesh framework that is not available and check one sequence.",
  ["src/statemanager/JaliState.h", "src/statemanager/JaliState.cc"], [("linear search and per-kind indices", "src/statemanager/JaliState.h find, add")], ["State::add", "State::find", "State::get", "entity_begin/entity_end", "names"])
p("V02", "Field vectors have one value per entity and copy as documented",
  "A field on a mesh or tile has exactly one value per entity of its kind and type, initialised to the given constant or array, and element access addresses distinct values. Handles obtained from the state or by assignment share the data while a copy made by copy construction or by adding the vector to a state has independent data of equal value.",
  ["inputs", "histories"], "all kinds, types, initial data and write positions within the bounds",
  "Tests write one element in one vector.",
  ["src/statemanager/JaliStateVector.h", "src/statemanager/JaliState.h"], [("shared data pointer and deep copy constructor", "src/statemanager/JaliStateVector.h")], ["UniStateVector constructors, operator=, operator[], size"])
p("V03", "Materials, their cell sets and the per-cell material lists agree",
  "At any time a material's cell set contains a cell exactly when that cell's material list contains the material, the number and names of materials reflect all additions and removals, and material indices used in per-cell lists stay valid after a material is removed. Adding cells a material already has, adding a material that exists and removing a material that does not exist change nothing.  (Removing single cells from a material is documented as not implemented and is refused.)",
  ["histories", "inputs"], "all sequences of adding and removing materials and adding cells within the bound",
  "Tests perform one fixed sequence on a mesh that needs an unavailable framework.",
  ["src/statemanager/JaliState.cc", "src/statemanager/JaliState.h"], [("material bookkeeping", "src/statemanager/JaliState.cc add_material, rem_material, add_cells_to_material, rem_cells_from_material")],
  ["num_materials", "material_cells", "cell_materials", "cell_index_in_material", "material_name"])
p("V04", "Multi-material fields keep each material's value at its cell",
  "In a multi-material field the value stored for a material and cell is returned for that material and cell until it is overwritten, also when materials or cells are added or removed in between and whichever layout (cell-centric or material-centric) the initial data had. The per-material extent follows the size of the material's cell set.",
  ["histories", "inputs"], "all data layouts, material configurations and change sequences within the bound",
  "Tests use one arrangement of materials and no removal in the middle of a set.",
  ["src/statemanager/JaliStateVector.h", "src/statemanager/JaliState.cc"], [("per-material compact arrays", "src/statemanager/JaliStateVector.h MultiStateVector")], ["MultiStateVector operator(), get_matdata, size, add_material, rem_material"])
p("V05", "Exporting fields to the mesh and importing them back preserves them",
  "Fields exported to a mesh that stores fields and imported into a new state manager come back with the same names, entity kinds, value types and values; fields of kinds or types that cannot be stored are left out without affecting the others.",
  ["inputs", "histories"], "all sets of fields over kinds and value types within the bound",
  "Field storage exists only in a framework that is not available; one round trip is tested.",
  ["src/statemanager/JaliState.cc"], [("field transfer", "src/statemanager/JaliState.cc init_from_mesh, export_to_mesh")], ["State::init_from_mesh", "State::export_to_mesh"])
# ---------------------------------------------------------------- factory / errors
p("F01", "The mesh factory honours every option and refuses impossible requests",
  "Every option set on the mesh factory is reported back and is in effect in the meshes it creates, resetting restores the defaults of all options, and a mesh represents every entity kind reported as included and no derived kind that is neither included nor needed by an included one. A request that cannot be met (no cells, non-positive extent, dimension mismatch with the geometric model, framework that cannot create or import such meshes) is refused with an error and never yields a missing or partial mesh.",
  ["configurations", "inputs"], "all option combinations and creation requests within the bounds",
  "Tests try a few valid and invalid requests with default options.",
  ["src/mesh/mesh_factory/MeshFactory.cc", "src/mesh/mesh_factory/MeshFactory.hh"], [("request validation and dispatch", "src/mesh/mesh_factory/MeshFactory.cc create")], ["MeshFactory::create", "included_entities", "reset_options"])
p("F02", "Error behaviour follows the selected mode and messages are complete",
  "When raising is selected every reported error arrives at the caller as the exception object that was thrown, when aborting is selected every reported error ends the program instead, and the selection in force is reported back and holds for errors from every part of the library. An error message contains exactly the pieces appended to it in order.",
  ["configurations", "inputs"], "both modes, any order of switching, errors raised from any component",
  "Tests raise a single error in the default mode.",
  ["src/error_handling/exceptions.hh", "src/error_handling/exceptions.cc", "src/error_handling/errors.hh", "src/error_handling/errors.cc"], [("behaviour switch", "src/error_handling/exceptions.hh Jali_throw")], ["set_exception_behavior", "Jali_throw", "Errors::Message"])
# ---------------------------------------------------------------- not applicable here
p("N01", "Distributed meshes agree on shared entities across processes",
  "In a distributed mesh every entity is owned by exactly one process, ghost copies on other processes carry the same global identifier and coordinates, and ghost layers have the requested depth.",
  ["schedules", "configurations"], "all process counts, partitions and meshes",
  "Requires many process counts and partitions.",
  ["src/mesh/mesh_mstk/Mesh_MSTK.cc"], [("MSTK distributed mesh", "src/mesh/mesh_mstk/Mesh_MSTK.cc")], ["GID", "entity_get_type"])
p("N02", "Imported and exported mesh files preserve the mesh",
  "Reading a mesh file yields the cells, sets and coordinates in the file, and writing and reading back a mesh with its fields preserves them.",
  ["inputs"], "all mesh files", "Only a few example files are read.",
  ["src/mesh/mesh_mstk/Mesh_MSTK.cc"], [("Exodus II import/export through MSTK", "src/mesh/mesh_mstk/Mesh_MSTK.cc")], ["MeshFactory::create(filename)", "write_to_exodus_file"])
p("N03", "Meshes extracted from another mesh represent exactly the chosen entities",
  "A mesh extracted from sets of cells or faces of another mesh contains exactly those entities, with parents recorded and coordinates preserved (less the dropped coordinate when flattened).",
  ["inputs", "configurations"], "all source meshes and set selections", "One extraction per case is tested.",
  ["src/mesh/mesh_mstk/Mesh_MSTK.cc"], [("extraction constructors", "src/mesh/mesh_mstk/Mesh_MSTK.cc extract_mstk_mesh")], ["MeshFactory::create(inmesh, setnames, ...)", "entity_get_parent"])
p("N04", "The Python input tools write back the input tree they hold",
  "Writing an input tree built with the scripting tools and reading it again gives an equal tree.",
  ["inputs"], "all input trees", "The scripts have no runnable tests.",
  ["tools/py_lib/jali/input_tree.py"], [("XML input tree", "tools/py_lib/jali/input_tree.py")], ["InputTree read/write"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
