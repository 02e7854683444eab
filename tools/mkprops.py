#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property list)."""
import json, os
I = "include/delfem2/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[I + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Every edit of an editable triangle mesh keeps it a consistent manifold",
 "After any sequence of vertex insertions (inside a face or on an edge), edge flips, edge collapses and face deletions on an editable triangle mesh, neighbouring faces refer to each other across exactly their shared edges, every live vertex names one of its faces, and the surface stays the same topological surface with the same boundary (apart from deleted faces, and from a triangular hole that a collapse closes). An edit that is refused leaves the mesh unchanged. Rotating around a vertex and searching for an edge return exactly the faces and edges that are there.",
 ["histories", "inputs"], "all finite edit histories over closed and bounded triangle meshes, accepted and refused edits, queries after every edit",
 "Tests sample a couple of fixed edits and look at one mesh; a broken adjacency only shows several edits later and depends on which corner of which face was hit.",
 ["dtri_topology.cpp", "dtri_topology.h"],
 [("InsertPoint_Elem / InsertPoint_ElemEdge / FlipEdge / CollapseEdge_MeshDTri / DeleteTri rewire s2 and e,d by hand", I+"dtri_topology.cpp"),
  ("MoveCCW / MoveCW / FindEdge_LookAroundPoint / FindEdge_LookAllTriangles / GetTriArrayAroundPoint", I+"dtri_topology.cpp"),
  ("AssertDTri / AssertMeshDTri / CheckTri", I+"dtri_topology.cpp")],
 ["CDynTri::v, CDynTri::s2, CDynPntSur::e,d after each call"],
 [("CDynTri", "corner vertices and neighbours of a face", I+"dtri_topology.h"), ("CDynPntSur", "one incident face of a vertex", I+"dtri_topology.h")])

prop("C02", "Triangulating a polygon with holes covers it exactly and keeps its outline",
 "Triangulating a simple polygon, with or without holes, given as closed loops yields counter-clockwise triangles that do not overlap and cover exactly the region inside the outer loop and outside the holes, with every segment of every loop present as a boundary edge. The loops given to it are classified correctly: properly nested loops that do not cross are accepted, self-crossing or mutually crossing ones are refused. Reversing the given orientation of a loop does not change the region.",
 ["inputs"], "all simple polygons with holes on a small integer lattice, in either orientation, with collinear and cocircular points",
 "Tests mesh a few convex outlines; exact cover and outline preservation depend on every order of insertion and every constrained edge crossing, including collinear vertices.",
 ["dtri2_v2dtri.cpp", "geo_polygon2.cpp"],
 [("Meshing_SingleConnectedShape2D, EnforceEdge, FlagConnected, DeleteTriFlag, DeletePointsFlag", I+"dtri2_v2dtri.cpp"),
  ("CheckInputBoundaryForTriangulation, FixLoopOrientation", I+"geo_polygon2.cpp")],
 ["aXY / aTri returned by the mesher"])

prop("C03", "Point insertion keeps a Delaunay triangulation of the same region",
 "Starting from a triangulated region, inserting points (inside a face or on an edge) with Delaunay restoration gives, after every insertion, a consistent triangulation of the same region that contains every inserted point, has no inverted or empty triangle and satisfies the empty-circumcircle condition on every interior edge. Forcing an edge between two vertices into the triangulation makes that edge present without changing the region or the vertices. Removing flagged faces and vertices leaves exactly the others, consistently renumbered.",
 ["histories", "inputs"], "all insertion histories of lattice points incl. collinear, cocircular and on-edge points; all vertex pairs to be forced; all subsets of faces/points to be removed",
 "Tests use one outline; degenerate (collinear/cocircular) insertion orders and crossings of many edges are input-dependent and not sampled.",
 ["dtri2_v2dtri.cpp", "dtri_topology.cpp"],
 [("DelaunayAroundPoint, Meshing_Initialize, AddPointsMesh, FindEdgePoint_AcrossEdge, EnforceEdge", I+"dtri2_v2dtri.cpp"),
  ("DeletePointsFlag, DeleteTriFlag, DeleteUnrefPoints", I+"dtri2_v2dtri.cpp")],
 ["aPo2D, aDTri, aVec2 after each call"])

prop("C04", "CAD sketch edits keep loops, edges and vertices consistent",
 "After any sequence of adding polygons, inserting a vertex on an edge and adding a vertex in a face, every face of a sketch is bounded by closed loops of edges that join end to end, every non-isolated edge is used with the orientations its faces prescribe, and the counts and names of vertices, edges and faces change exactly as the edit says. Geometry stays attached to topology: each edge's end points are the positions of its two vertices, and inserting a vertex on a straight edge keeps the outline. Queries for the vertices and edges of a face return exactly those of that face.",
 ["histories", "inputs"], "all edit histories of polygon creation, edge splitting and vertex addition; all queries after every edit",
 "The CAD tests build one or two sketches; loops, edge directions and face indices only go wrong for particular histories (second polygon, split of a particular edge).",
 ["cadtopo.h", "cad2.cpp", "cad2.h"],
 [("CadTopo::AddPolygon / AddVtx_Edge / AddVtx_Face / Check", I+"cadtopo.h"), ("CCad2D::AddPolygon / AddVtxEdge / AddVtxFace", I+"cad2.cpp")],
 ["CadTopo vertices/edges/faces/loops; CCad2D::XY_VtxCtrl_Face, Ind_Vtx_Face, Ind_Edge_Face"])

prop("C05", "Meshing a CAD sketch keeps the map between CAD entities and mesh",
 "Meshing a sketch gives a mesh in which each CAD vertex is exactly one mesh point at its position, each CAD edge is an ordered chain of mesh boundary edges running from its start vertex to its end vertex with the points on it, and each triangle and interior point belongs to exactly one face. The triangles of a face cover exactly that face and are counter-clockwise. Asking for the points of any set of vertices, edges and faces returns exactly the points that lie on them.",
 ["inputs", "histories"], "all sketches of up to several polygons with split edges, and all selections of entities",
 "Tests check only that meshing one square succeeds.",
 ["cad2_mesher.cpp", "cad2_mesher.h", "dtri2_v2dtri.cpp"],
 [("CMesher_Cad2D::Meshing, IndPoint_IndEdge, IndPoint_IndFaceArray, Indexes_Points", I+"cad2_mesher.cpp")])

prop("C06", "Connectivity tables of a mesh say exactly what the element list says",
 "From the element list of a mesh of one element kind, the derived tables list, for every vertex, exactly the elements around it and exactly its neighbouring vertices, for every element side exactly the element across it, and every edge exactly once; boundary extraction lists exactly the sides with no neighbour. The result does not depend on what the output containers held before. Numberings with a gap of unused vertices are handled the same way.",
 ["inputs"], "all small meshes of triangles, quads, tets, hexes and lines, including unused vertices and non-empty output containers",
 "Tests evaluate downstream numerics on two or three meshes; wrong tables for boundary, unused or reused inputs are not seen.",
 ["msh_topology_uniform.cpp", "msh_topology_uniform.h", "jagarray.cpp"],
 [("JArray_ElSuP_MeshElem, JArray_PSuP_MeshElem, ElSuEl_MeshElem, MeshLine_MeshElem, JArray edge/boundary functions", I+"msh_topology_uniform.cpp"),
  ("JArray_Sort, JArray_AddDiagonal, JArray_Extend, JArrayEdgeUnidir_PointSurPoint", I+"jagarray.cpp")])

prop("C07", "Grouping and mixed-element connectivity are exact equivalences",
 "For meshes mixing element kinds, the derived tables list exactly the elements around each vertex and, for every side, exactly the element sharing that side. Grouping elements by connectivity puts two elements in one group exactly when a chain of shared sides joins them, with groups numbered without gaps. Splitting a mixed mesh into kinds and unifying separately indexed attributes lose and duplicate nothing.",
 ["inputs"], "all small mixed meshes (triangle, quad, tet, pyramid, wedge, hex) and all connectivity graphs on up to several elements",
 "No test builds mixed meshes; connectivity is a closure property over every graph.",
 ["msh_topology_mix.cpp", "msh_topology_mix.h", "msh_topology_uniform.cpp"],
 [("JArray_ElSuP_MeshMix, ElSuEl_MeshMix, Boundary_MeshMix, MakeGroupElem_MeshMix, ClipGroup_MeshMix, FlipElement", I+"msh_topology_mix.cpp"),
  ("MakeGroupElem, UnifySeparateIndexing", I+"msh_topology_uniform.cpp")])

prop("C08", "Mesh subdivision yields a conforming refinement with the right counts",
 "Subdividing a quad, hex or tet mesh once splits every element into the standard number of children over a shared set of new vertices, one per edge, face and cell as the scheme says, so that neighbouring children still match across sides and the boundary is the subdivided boundary. No vertex is duplicated and no index is out of range. Repeating the operation keeps this.",
 ["inputs", "histories"], "all small quad/hex/tet meshes, closed and with boundary, and repeated subdivision",
 "Tests do not subdivide at all or only look at one mesh.",
 ["mshsubdiv.cpp", "mshsubdiv.h"],
 [("SubdivTopo_MeshQuad, SubdivTopo_MeshHex, SubdivTopo_MeshTet, SubdivisionPoints_*", I+"mshsubdiv.cpp")])

prop("C09", "The boundary mesh of a voxel set is exactly its closed outward surface",
 "Meshing the boundary of a voxel set produces exactly one outward-facing quad (or two triangles) for each cell side separating a filled cell from an empty one, over vertices at the lattice corners in use. Vertices are the lattice corners in use, without duplicates. Growing and shrinking a voxel set, reading a cell outside the grid as empty, and converting between cell coordinates and indices all agree with the set of filled cells under one order of cells. Tracing a segment through the grid lists exactly the cells it passes through, in order; distances over filled cells from seed cells are the shortest path lengths.",
 ["inputs", "histories"], "all small voxel sets and all grow/shrink/add histories",
 "Tests mesh one or two voxel sets and compare counts.",
 ["gridvoxel.cpp", "gridvoxel.h"],
 [("CGrid3::Add, IsInclude, MeshQuad3D_VoxelGrid, Dilation/Erosion, voxel geodesic", I+"gridvoxel.h")])

prop("C10", "Primitive surface generators give closed, consistently oriented meshes",
 "For every admissible resolution, the generated sphere, torus, cube, cylinder, capsule and geodesic meshes are closed (or have exactly the intended rim), consistently oriented outward, use every vertex, contain no degenerate face and have the Euler number of the shape.",
 ["inputs"], "all resolutions within bounds for each generator",
 "Tests use primitives only as input, at one resolution.",
 ["msh_primitive.cpp", "msh_geodesic_polyhedron.cpp"],
 [("MeshTri3D_Sphere, MeshTri3_Torus, MeshTri3D_Cube, MeshTri3D_CylinderClosed, MeshTri3_Capsule, MeshTri3D_Icosahedron, ...", I+"msh_primitive.cpp")])

prop("C11", "A bounding-volume hierarchy contains every object once and queries miss nothing",
 "A bounding-volume hierarchy built over any set of points or elements, with coincident ones, is a binary tree whose leaves are exactly the objects, once each, and whose volumes contain those of their children, also after the volumes are refitted to moved objects. Inclusion, range, ray and line queries return every object that qualifies, and a nearest query returns an object at the smallest distance. Self-intersection and proximity traversals report every pair they should, once.",
 ["inputs", "histories"], "all small object sets with ties and duplicates, all query positions, build/move/refit/query histories",
 "Tests use random distinct points with a few queries; ties in the sort codes, refits and traversal pruning depend on the input.",
 ["srch_bvh.cpp", "srch_bvh.h", "srch_bv3_aabb.h", "srch_bv3_sphere.h", "srch_trimesh3_class.h", "srch_selfintersection_bvh.h"],
 [("SortedMortenCode_Points3, BVHTopology_Morton, BVHTopology_TopDown_MeshElem, BVH_BuildBVHGeometry, BVH_GetIndElem_Include / _InsideRange / _IntersectRay / _IntersectLine, BVH_IndPoint_NearestPoint, BVH_Range_DistToNearestPoint", I+"srch_bvh.h")])

prop("C12", "Spatial indices return the same answer as looking at every point",
 "Nearest-neighbour and proximity queries through the k-d trees (of points and of triangles) and through the uniform and hashed grids return exactly what an exhaustive scan returns, for any point set with duplicates and aligned points and any query, including queries outside the data. No stored object is lost or reported for another cell. The exhaustive searches on meshes themselves (nearest triangle, triangles on a line or ray in order of depth, cells of a height field on a line, tetrahedron holding a position, triangles connected inside a sphere) return what the geometry says.",
 ["inputs"], "all small lattice point sets and query positions",
 "Tests check random distinct points only.",
 ["srch_kdtree.h", "srch_kdtree_tri.h", "srchgrid.h", "grid3hash.h", "srch_bruteforce.cpp"],
 [("BuildKdTree / SearchKdTree / Nearest", I+"srch_kdtree.h"), ("SearchGrid::PostProcess / GetOneRingNeighbor", I+"srchgrid.h"), ("IntersectionRay_MeshTri3, Nearest_Point_MeshTri3D, IndexesOfConnectedTriangleInSphere", I+"srch_bruteforce.h")])

prop("C13", "Shortest-path sweeps and clustering give true shortest distances",
 "Breadth and shortest-path sweeps over element or vertex adjacency assign every reachable item its true shortest distance from the source, visit items in non-decreasing distance, and leave unreachable items marked as such. Clustering by seeds assigns every element of a connected mesh to a cluster with a nearest seed, each further seed being a farthest element. Binary clustering of points merges neighbours in pairs and leaves no two neighbours both alone, adds up areas, averages positions and normals by area; the coarse neighbour table has exactly the clusters that neighbour each other. (Sweeps by number of elements and over vertices, and clustering, need a connected mesh, as their assertions say.)",
 ["inputs"], "all small graphs and meshes with positive edge lengths, with ties and disconnected parts",
 "Not tested; the order in the queue matters only with ties and detours.",
 ["dijkstra.h", "clusterpoints.cpp"],
 [("DijkstraElem_MeshElemTopo, DijkstraElem_MeshElemGeo, DijkstraPoint_MeshTri3D, MeshClustering", I+"dijkstra.h")])

prop("C14", "Cross sections of a closed mesh are closed contour loops",
 "Cutting a closed triangle mesh at several heights yields, at each height, closed loops of intersection segments in which every cut triangle appears exactly once, consecutive segments meet on a mesh edge at the height, and what is above lies on the same side throughout; a vertex exactly on a height counts as above it. On a mesh with a boundary the closed loops are listed and the open ones left out. Loops carry the height they were cut at. The graph of loops joins only loops of the same or adjacent heights; when no triangle crosses two heights it joins exactly loops that meet through the mesh between their heights. Contour lines of a field have a segment in every triangle the level crosses and along every mesh edge on the level with a lower triangle.",
 ["inputs"], "all level assignments on small closed surfaces (sphere, torus), random refinements, several components, meshes with holes, levels equal to vertex levels",
 "One test slices one mesh.",
 ["slice.cpp", "slice.h"],
 [("Slice_MeshTri3D_Heights, MakeReebGraph, AddContour", I+"slice.cpp")])

prop("C15", "Sparse block matrix assembly and product equal the dense definition",
 "For any sparsity pattern (each off-diagonal column listed once per row) and any history of clearing, merging element matrices with the same or different row and column lists inside the pattern, adding to the diagonal (constant, single value, lumped mass), scaling rows and columns, imposing fixed degrees of freedom, and copying, the block sparse matrix equals the dense matrix obtained by the same operations; its products (plain, transposed, and of a scalar matrix on blocks) equal the dense products added to the given multiple of the old result; the pattern itself never changes; the symmetry check reports zero exactly for symmetric matrices.",
 ["histories", "inputs"], "all assembly histories over small patterns and block sizes 1 to 4",
 "Tests assemble a single mesh and check convergence of a solver; a dropped or doubled contribution in one operation order is invisible.",
 ["ls_block_sparse.cpp", "ls_block_sparse.h"],
 [("CMatrixSparse::SetPattern / setZero / Mearge / MatVec / MatTVec / SetFixedBC / AddDia / ScaleLeftRight", I+"ls_block_sparse.h")])

prop("C16", "Exact factorizations solve the system, preconditioners respect fill",
 "Factorizing a banded (block tridiagonal or pentadiagonal) system or a sparse block matrix with complete fill, and substituting back, returns the solution of the linear system, also with fixed degrees of freedom and through the solver front ends. With a fill level the factor has only entries that level allows and loses none that a row-by-row elimination of that level finds (all entries of the matrix at level zero, every fill-in when complete), and it is the factor of the matrix on that pattern: its product agrees with the matrix at every entry kept. Copying values, refactorizing, changing the pattern or copying the factor leaves no trace of earlier ones. Matrices need nonsingular pivots.",
 ["inputs", "histories"], "all small patterns and diagonally dominant integer matrices; all fill levels; repeated factorization",
 "Tests factorize one or two matrices.",
 ["ls_ilu_block_sparse.h", "ls_ilu_block_sparse.cpp", "ls_tridiagonal.h", "ls_pentadiagonal.h"],
 [("CPreconditionerILU::Initialize_ILUk / SetValueILU / DoILUDecomp / SolvePrecond", I+"ls_ilu_block_sparse.h"), ("BlockTriDiagonalMatrix::Decompose / Solve", I+"ls_tridiagonal.h")])

prop("C17", "Master-slave constraints tie exactly the declared degrees of freedom",
 "With degrees of freedom tied to free masters (the same coordinate of another block), the sparsity pattern grows exactly by the couplings the ties create between blocks, each listed once; on that pattern the constrained matrix equals the reduced one (rows and columns of slaves added to their masters', a one left on the diagonal of each slave), and the right-hand side equals the reduced one, whatever entries of the pattern are filled and however often the storage is used again.",
 ["inputs", "histories"], "all tie assignments on small patterns",
 "Not tested.",
 ["ls_masterslave.cpp", "ls_masterslave.h"],
 [("JArray_AddMasterSlavePattern, SetMasterSlave, setRHS_MasterSlave", I+"ls_masterslave.h")])

prop("C18", "The linear program solver is sound and complete on small programs",
 "For every linear program over variables x >= 0 (rows '<=', '>=' or '=' with whole-number coefficients and right-hand sides, an objective over the variables that occur in the rows, an iteration limit that is not reached) Precomp tells whether it is feasible and GetValid then returns a feasible point; Solve classifies the objective correctly as bounded or unbounded, and when it reports an optimum the returned point satisfies every constraint and attains the true optimal value. The answer does not depend on the order of the constraints, on objectives or constraints that were solved before, or on adding rows and running Precomp again.",
 ["inputs", "histories"], "all small integer programs with inequality and equality rows incl. degenerate ones",
 "Fourteen fixed programs are tested; degeneracy and phase-one handling depend on the program.",
 ["lp.cpp", "lp.h"],
 [("CLinPro::AddEqn / Precomp / Solve / GetValid", I+"lp.cpp")])

prop("C19", "The formula evaluator computes the value conventional precedence gives",
 "For every well-formed formula of decimal numbers, named variables that were given a value, PI, the operators + - * / ^, signs, parentheses and the functions abs, floor, exp, sin, cos, sqrt, log, the evaluator returns the value under conventional precedence (operators of equal rank from the left, powers from the right, a sign binds weaker than a power), re-evaluates to the right value whenever a variable is changed, and refuses malformed formulas without corrupting later use, whatever was evaluated before. Blanks and line breaks between the parts do not matter. Where the function is undefined (division by zero, root of a negative number) the value is free.",
 ["inputs", "histories"], "all formulas up to a bounded size and all set-variable/evaluate/re-parse histories",
 "One test evaluates a handful of formulas.",
 ["parse_math_expression.cpp", "parse_math_expression.h"],
 [("CMathExpressionEvaluator::SetExp / SetKey / Eval, RPN conversion and operator priority", I+"parse_math_expression.cpp")])

prop("C20", "Text splitting loses nothing and respects quotes and brackets",
 "Splitting text by delimiters, by brackets at nesting level, or outside quotes returns exactly the pieces in order, never cuts inside a quoted or bracketed part, and reports nothing that is not in the text (empty pieces are dropped, except by the bracket form, which keeps those before the last delimiter); trimming, removing and replacing characters change exactly what they name. Tags, attributes, dictionaries, comma-separated numbers and command-line options are read as they were written.",
 ["inputs"], "all strings up to a bounded length over an alphabet with delimiters, brackets, quotes and letters",
 "Three tests with one string each.",
 ["str.cpp", "str.h"],
 [("Split, Split_Parentheses, Split_Quote, RemoveSpace, Replace, isAlphabet...", I+"str.cpp")])

prop("C21", "Meshes and arrays survive being written to and read back from files",
 "Writing a mesh to any of the supported text formats (obj for triangles, quads and mixed groups, ply, stl, vtk) and reading it back gives the same vertices and faces in the same order, for coordinates within the digits that are written. Files with polygons, negative or composite indices, comments, groups, materials, long lines or a last line without line break are read with every face of the kinds the reader is for kept and every index resolved (the triangle and quad readers take their own kind, Read_Obj3 cuts polygons into fans, the mixed reader keeps everything). TetGen and Nastran files keep elements apart from attributes and markers. Arrays (npy, little-endian float/double, one or two axes, either order) and pixmaps are read with the shape and values that were written, and files of another type are refused. Parameter files and path functions return the parts of the text that was given, whatever the containers passed in held before.",
 ["inputs"], "all small meshes and all mixes of index styles and line kinds",
 "One test loads one file.",
 ["msh_io_obj.cpp", "msh_io_ply.cpp", "msh_io_misc.cpp", "filenpy_str.cpp", "img_ioppm.cpp"],
 [("Read_Obj*, Write_Obj*, Read_Ply, Write_Ply, Write_STL, Read_*", I+"msh_io_obj.cpp")])

prop("C22", "Parallel loops run every index exactly once and finish before returning",
 "A parallel loop calls the body exactly once for every index in its range, whatever the number of indices, their type and the number of threads (also when the number of processors is unknown), with no more calls at once than threads asked for, and returns only after every call has finished. When calls throw, one of the thrown exceptions reaches the caller after all running calls finished, no index is handled twice, and a lone thread handles nothing after its failure. The one- and two-dimensional forms visit exactly the same sets as the corresponding serial loops, and the picture traced by rays is the same in parallel and serial.",
 ["schedules", "inputs"], "all thread schedules, index counts (0, fewer than threads, not divisible) and thread counts",
 "The tests run one size and cannot choose the schedule.",
 ["thread.h"],
 [("parallel_for work split and atomic counter, join", I+"thread.h")])

prop("C23", "Convex hulls contain every input point and use only extreme points",
 "The convex hull of any planar point set is a counter-clockwise convex polygon, closed by its first corner, whose corners are input points, without other repeated or collinear corners, containing every input point; for collinear, coincident or few points it is the (at most two) end points. The hull of a set of points in space is a closed, outward-oriented triangle surface whose corners are input points, with every input point on or inside it; for points on one plane there are no triangles. Order and duplicates of the points do not matter.",
 ["inputs"], "all small lattice point sets, with duplicates and collinear runs",
 "Random points are tested, on which degenerate cases have probability zero.",
 ["geo_convhull2.h", "geo_convhull3.h"],
 [("ConvexHull2", I+"geo_convhull2.h"), ("ConvexHull3", I+"geo_convhull3.h")])

prop("C24", "Intersection tests agree with exact geometry",
 "Two convex shapes given by their points share a point or not: the iterative test (GJK) and the separating-axis test answer that in the plane and in space, whatever the order of the operands and of their points and whatever the scale, except that shapes that only touch may be answered either way by the iterative test and, for coordinates that are not exact, by both. When shapes with volume overlap, the penetration query gives a shift that separates them and no shorter one does. Segments, segment and box, boxes, box and disk in the plane are decided exactly, touching included; triangle and triangle in space, half-line and triangle, line or half-line and ball, ball and ball wherever they do not merely touch. The segment reported for two crossing triangles lies in both.",
 ["inputs"], "all pairs of small lattice polygons/polyhedra in general and touching-free position",
 "Random continuous shapes are tested.",
 ["geo_gjksat2.h", "geo_gjksat3.h", "geo_tri.cpp", "geo_edge.cpp"],
 [("IsIntersect_Points2_Points2_Gjk / _Sat, Penetration_..Epa", I+"geo_gjksat2.h")])

prop("C25", "Adding points keeps the tetrahedra Delaunay and the tables consistent",
 "Points are added one by one to a tetrahedral mesh that starts as one enclosing tetrahedron; each lies strictly inside it and exactly on no circumscribed sphere. After every addition the mesh consists of exactly the tetrahedra untouched by the point (whose rows keep their numbers) and those that join the point to the boundary of the hole, the hole being all tetrahedra whose sphere contains the point. So the mesh fills the enclosing tetrahedron with positively oriented tetrahedra, every circumscribed sphere is empty, neighbours are entered across exactly the shared faces, every vertex refers to a tetrahedron that has it, stored circumcentres are those of their rows, retired rows are empty, and the work array is restored. The tetrahedra around a vertex and around an edge are then reported completely, those around an edge in order, and hull vertices and edges are recognised. Volumes, face normals and areas, edge lengths, circumradii and the sphere predicates match the exact coordinates.",
 ["inputs","histories"], "all insertion orders of generic points",
 "No test covers this module.",
 ["dtet_v3.h", "dtet_v3.cpp", "geodelaunay3_v3.cpp", "geo_tet.h"],
 [("AddPointTetDelaunay", I+"dtet_v3.cpp"), ("MakeElemAroundPoint / MakeElemAroundEdge", I+"dtet_v3.cpp")])

prop("C26", "Nearest points, distances and projections are those of exact geometry",
 "For points, edges, triangles and parallelograms with rational corners (degenerate edges and triangles included, at any scale and offset): the nearest point computed for an edge, a triangle or a parallelogram lies in it and is the nearest one; the weights or parameters returned with it are non-negative, sum to one and give that point; the foot on a line, a plane or the plane of a triangle is the perpendicular foot; nearest points of two lines, and of an edge and a line, are at the ends of their common perpendicular (or at the nearer end of the edge); distances are the distances to these points; for parallel edges that overlap, the reported places lie in the overlap, and edge contact is reported exactly when the nearest places lie within both edges and the threshold; the distance of two crossing edges of the plane is minus one and otherwise the least distance. Line-plane intersections lie on both, with barycentric weights deciding inside; barycentric coordinates in a tetrahedron reproduce the point; the solid angles of the faces of a tetrahedron add up to 4 pi within and 0 without. On a polyline (repeated points included) the nearest vertex, nearest parameter, sample, tangent (also at and past both ends), bounding box, length, arc length of the nearest point, equidistant resampling, enclosed area and winding number are the exact ones.",
 ["inputs"], "every point against every edge and triangle of a lattice, and random rational configurations",
 "Tests sample random floating-point inputs with loose tolerances; degenerate, parallel and far configurations never occur.",
 ["geo_edge.h", "geo_line.h", "geo_plane.h", "geo_tri.h", "geo_quad.h", "geo_tet.h", "geo_aabb.h", "geo_polyline.h"],
 [("Nearest_Origin_Edge / Distance_Edge3_Edge3", I+"geo_edge.cpp"), ("Nearest_Triangle3_Point3 / Nearest_Origin3_Tri3", I+"geo_tri.cpp"), ("Nearst_Origin3_Quad3", I+"geo_quad.cpp"), ("Nearest_Polyline", I+"geo_polyline.h")])

prop("C27", "Measures and maps of a mesh are exact",
 "For meshes with integer corners (any scale and offset, any numbering, points in no element included): bounding boxes, centres and widths (of all points, in another frame, of a group of elements of one or of mixed sizes) are the exact ones, also for all-negative coordinates; centres of gravity of points, lines, triangles as shells (whole or by flag), closed surfaces as solids and tetrahedra, their lengths, areas and volumes, the centres and largest radius of triangles, lumped masses (which sum up to the density times the measure) and moments of inertia are those of the geometry, and a closed surface gives the same solid as its tetrahedra. Point normals are unit and along the sum of the unit normals of the triangles or corners of quadrilaterals around; unindexed corners, normals, colours and edges are those of the triangles. Scaling, translation, rotation and normalization move every point exactly as specified; normalized vectors and tangents are unit and in the specified line or plane. Points given by element and weights are the weighted corners, for surfaces, tetrahedron faces and height grids, and are called valid exactly when index and weights are; random points lie in triangles with area (of the selection) in proportion to the area. Dropping unused points and joining meshes keep points and elements; a flat mesh made thick gives positive tetrahedra that fit together face to face and fill the prism; distortion is reported exactly beyond the thresholds; outer solid angles of a box surface are the exact eighths of the sphere.",
 ["inputs"], "every solid glued from up to three or four lattice tetrahedra, and random meshes",
 "Tests check a few spheres and boxes with tolerances; mixed sizes, negative coordinates, flags, unusual numberings and unused points never occur.",
 ["msh_boundingbox.cpp", "msh_center_of_gravity.cpp", "msh_affine_transformation.cpp", "msh_normal.cpp", "msh_unindexed.h", "mshmisc.cpp", "point_on_surface_mesh.cpp", "sampler_trimesh.h"],
 [("CG_MeshTri3_Solid / CG_MeshTet3", I+"msh_center_of_gravity.cpp"), ("GetCenterWidthGroup", I+"msh_boundingbox.cpp"), ("SetTopology_ExtrudeTri2Tet", I+"mshmisc.cpp"), ("TangentVector_Points3", I+"msh_affine_transformation.cpp"), ("Mat3_IrotTriSolid", I+"geo_tri.cpp")])

prop("C28", "Matrices, quaternions and affine maps describe the same transformation",
 "Rotations with integer quaternions (any axis, half turns and the identity included), translations and scalings are composed in every order: the homogeneous matrix built by multiplying, the matrix changed in place, and the quaternion with translation and scale all move every point to the exact place, and taking back the last step restores the map. Products, transposed products, transposes, outer and spin matrices, matrix-vector products, determinants, inverses, quadratic forms and traces of 2, 3 and 4 dimensional matrices, pointer, class and in-place versions alike, are the exact ones. Quaternion products, conjugates, inverses, normalisation and rotation agree with the matrices; conversions among quaternion, matrix, axis-angle vector, Cayley-Rodrigues vector and Euler angles give back the same rotation in every branch, half turns included; the minimum rotation carries one direction to another, opposite ones included; spherical interpolation moves at equal steps; look-at, perspective and orthogonal view matrices place the eye, the target and the corners of the view volume where they belong.",
 ["inputs","histories"], "every composition of catalogued maps to a depth, and random exact operations",
 "Tests sample random floating-point rotations with loose tolerances; half turns, zero pivots, opposite vectors and row exchanges never occur.",
 ["mat2.cpp", "mat3.cpp", "mat3_funcs.cpp", "mat4.cpp", "quat.cpp"],
 [("Mat3_Quat / Quat_Mat3 / Mat3_MinimumRotation", I+"mat3_funcs.cpp"), ("Inverse_Mat4 / Mat4_AffineLookAt", I+"mat4.cpp"), ("Quaternion_EulerAngle / SphericalLinearInterp", I+"quat.cpp")])

prop("N01", "Energy, gradient and Hessian of every deformation model agree",
 "For each elastic, shell, rod and constraint energy, the returned gradient is the derivative of the returned energy and the returned second derivative is that of the gradient, for every admissible configuration.",
 ["inputs"], "all admissible configurations and materials",
 "Finite differences at random configurations only sample it.",
 ["fem_stvk.cpp", "fem_solidhyper.cpp", "fem_rod3_darboux.cpp", "fem_mitc3.cpp", "fem_discreteshell.cpp"],
 [("closed-form derivatives", I+"fem_*.cpp")])
prop("N02", "Matrix decompositions are accurate",
 "Polar, singular-value and eigenvalue decompositions and their differentials reproduce their input to rounding accuracy for every well-conditioned input.",
 ["inputs"], "all well-conditioned small matrices",
 "Random samples only.",
 ["svd3.cpp", "mat3.cpp", "mat2.cpp"],
 [("Svd3, GetRotPolarDecomp", I+"svd3.cpp")])
prop("N03", "Curve evaluation, splitting, length and nearest point agree",
 "For Bezier, B-spline and polynomial curves, splitting, extremes, arc length and nearest-point queries agree with point evaluation of the same curve to rounding accuracy.",
 ["inputs"], "all control polygons",
 "Random samples only.",
 ["geo_curve_cubic.h", "geo_curve_quadratic.h", "geo_curve_ndegree.h", "polynomial_root.h"],
 [("root finding and quadrature", I+"polynomial_root.h")])
prop("N04", "Iterative solvers converge to the solution they report",
 "Conjugate-gradient type solvers return a vector whose true residual matches the last reported one, for every symmetric positive definite system.",
 ["inputs"], "all SPD systems",
 "One system is tested.",
 ["lsitrsol.h", "vecxitrsol.cpp"],
 [("Solve_CG, Solve_PCG", I+"lsitrsol.h")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
