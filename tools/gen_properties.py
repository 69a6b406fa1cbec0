#!/usr/bin/env python3
"""Writes properties.jsonl (kept as data here so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

M = "src/tinymesh/core/mesh.cpp"
CPL = "src/tinymesh/core/completion.cpp"
NOTEST = "The only unit test that runs (vector arithmetic on fixed samples) never builds a mesh; "

prop("C01", "A built mesh is exactly the surface that was given",
     "Building a mesh from vertex positions and a triangle list yields exactly the listed triangles, each with its orientation, where entries with equal positions are one vertex, vertices are numbered by first appearance, degenerate triangles (two equal corners) are dropped wherever they stand in the list, and a triangle repeating an already used directed edge is skipped. Every boundary loop of the surface becomes exactly one hole face going round it, edges on such a loop (and only those) are reported as boundary, and the counts of vertices, edges, half-edges and faces follow from this. Positions are kept bit for bit.",
     ["inputs"], "every position array and triangle list describing an oriented manifold surface (any number of components, boundary loops, genus), with repeated positions, degenerate and repeated triangles anywhere in the list",
     NOTEST + "a few sample models cannot cover all surfaces and list orders.",
     [M, "src/tinymesh/core/face.cpp", "src/tinymesh/core/vertex.cpp"],
     [("construct", M), ("boundary loop construction", M), ("isHole/isBoundary", "src/tinymesh/core/face.cpp")],
     [("vertices/half-edges/faces", "the half-edge structure", "Mesh")], ["Mesh(vertices, indices)", "getVertices/getVertexIndices", "circulators"])
prop("C02", "Input that is not a manifold surface is reported, never accepted",
     "If the triangles left after dropping degenerate and edge-repeating ones do not form a manifold surface (a vertex whose triangles form more than one fan), or some vertex that occurs in the list is left without any triangle, building the mesh ends with the library's own reported error. It never returns a mesh, crashes on a memory fault or fails to return; conversely a manifold input is never refused.",
     ["inputs"], "every finite position array and index list with indices in range, manifold or not",
     NOTEST + "the set of malformed inputs is unbounded and the failure ends the process.",
     [M], [("non-manifold check, unreferenced-vertex check", M)], None, ["Mesh(vertices, indices)", "process outcome"])
prop("C03", "Rebuilding or reloading leaves nothing of the previous contents",
     "After building or loading new contents into an existing mesh object, the object is indistinguishable from a fresh object given the same contents, whatever it held before and whatever edits had been made to it.",
     ["histories", "inputs"], "every sequence of builds, loads (OBJ, PLY) and edits on one object",
     NOTEST + "depends on the history of the object.", [M],
     [("clearing of element arrays and index list", M)], [("index list", "triangle list consumed by the build step", "Mesh")], ["construct", "load"])
prop("C04", "Navigation stays consistent after every history of edits",
     "After any sequence of successful or refused builds, splits, flips, collapses and hole fillings, walking the mesh is consistent: opposite half-edges pair up with reversed ends, following next goes round each face and stays in it, every face except holes is a triangle, and positions of elements in the lists agree with their reported indices. Going round a vertex or face with any of the iterators (mutable or const, pre- or post-increment) visits each incident vertex, half-edge or face exactly once, in the rotational order, and degree/corner counts and the self-check agree.",
     ["histories", "inputs"], "every finite sequence of edit operations from every built mesh",
     NOTEST + "reachable states are unbounded; a wrong pointer usually shows only several edits later.",
     [M, CPL, "src/tinymesh/core/vertex.cpp", "src/tinymesh/core/face.cpp", "src/tinymesh/core/halfedge.cpp"],
     [("pointer updates of each edit", M), ("circulators", "src/tinymesh/core/vertex.cpp"), ("swap-with-last removal", M)],
     [("next/rev/src/face links, element indices", "half-edge structure", "Mesh")], ["iterators", "index()", "verify()"])
prop("C05", "Splitting an edge inserts its midpoint and nothing else",
     "Splitting an interior edge whose two end vertices both have at least three incident edges always succeeds: it adds one vertex exactly at the midpoint, replaces the two adjacent triangles by the four obtained by connecting that vertex to the two opposite corners with the same orientation, and leaves every other triangle, position and lock as it was. Splitting a boundary edge, or an edge with an end of fewer incident edges, is refused.",
     ["histories", "inputs"], "every edge (given by either half-edge) of every reachable mesh",
     NOTEST + "must hold for every edge of every reachable mesh.", [M], [("splitHE", M)], None, ["splitHE return value", "mesh contents"])
prop("C06", "Flipping an edge replaces exactly its diagonal",
     "Flipping an interior edge replaces its two triangles by the two on the other diagonal with the same orientation, adds or removes no vertex or edge, moves nothing, and changes no other triangle. It is refused exactly when the edge is on the boundary, one of its ends has at most four incident edges, or the opposite corners are already joined by an edge.",
     ["histories", "inputs"], "every edge (given by either half-edge) of every reachable mesh",
     NOTEST + "must hold for every edge of every reachable mesh.", [M], [("flipHE", M)], None, ["flipHE return value", "mesh contents"])
prop("C07", "Collapsing an edge merges its ends safely",
     "A successful collapse removes one end of the edge (the one with more incident edges; for equal counts the end the given half-edge points to) and the two adjacent triangles, redirects the removed end's other triangles to the surviving end, and leaves the survivor's position and everything else as it was. It is refused when a triangle beside the edge has a boundary edge, both ends lie on the boundary, an end has at most three or an opposite corner at most four incident edges, the ends share other than exactly two neighbours, or moving the removed end onto the survivor would turn some of its triangles over while keeping others; otherwise it succeeds. Collapsing a triangle performs the collapse of its first edge and then of the edge left opposite, each under these rules, and reports success if and only if something changed.",
     ["histories", "inputs"], "every edge and face of every reachable mesh, with any geometry",
     NOTEST + "acceptance depends on degrees, link structure and geometry together.", [M], [("collapseHE", M), ("collapseFace", M)], None, ["collapseHE/collapseFace return value", "mesh contents"])
prop("C08", "A refused edit leaves the mesh exactly as it was",
     "When a split, flip, edge collapse or face collapse reports that it did nothing, the mesh is unchanged: the same triangles, hole loops, positions, boundary and lock states and the same navigation and numbering; when it reports success the triangles have changed.",
     ["histories", "inputs"], "every edit request that is refused in every reachable mesh, including boundary edges and hole sides",
     NOTEST + "refusals can happen after part of the work was done.", [M], [("early returns before any update", M)], None, ["full mesh dump before/after"])
prop("C09", "Editing never changes the topology or makes the mesh unusable",
     "Every sequence of splits, flips and collapses keeps the number of connected components, the boundary loops (as many, each as long) and the Euler characteristic, keeps the surface an oriented manifold in which two vertices are joined by at most one edge, and so the result can always be rebuilt from its own vertex and triangle lists.",
     ["histories", "inputs"], "every finite sequence of splits, flips and collapses from every built mesh",
     NOTEST + "topology damage comes from rare configurations reached after many edits.", [M],
     [("link and degree conditions of collapse", M), ("existing-edge test of flip", M)], None, ["getVertexIndices", "clone"])
prop("C10", "Filling holes closes the surface and keeps what was there",
     "Filling the holes of a mesh (all of them, or one given hole) covers each filled hole of n edges by exactly n-2 triangles spanned by the hole's own vertices and oriented consistently with the surface, adds no vertex, and keeps every existing triangle and position. Afterwards the filled loop is no longer reported as hole or boundary anywhere, and edges on it can be edited like interior edges.",
     ["inputs", "histories"], "every mesh with holes whose loop vertices are not joined by mesh edges other than the loop itself, after any edit history, and any bending bound",
     NOTEST + "hole shapes and sizes are unbounded.", [CPL, M],
     [("holeFillMinDihedral_", CPL), ("addNewTriangle", CPL), ("fillHoles", M)], None, ["fillHoles", "holeFillMinDihedral", "isBoundary/isHole"])
prop("C11", "Hole triangulations are chosen by bending angle and area",
     "The triangulation chosen for a hole is the one obtained by dynamic programming over the loop, from the loop's first vertex on: each part of the loop between two of its vertices is covered by the third corner, tried in loop order, whose worst bending angle (across inner edges and across the loop's edges to the triangles outside, the edge that closes the loop excepted) is smallest, or whose area is smaller if the two bendings differ by less than the given bound. In particular, for a hole of four edges a split that is worse in both worst bending and area is never chosen, and with a vanishing bound the split with the smaller worst bending is.",
     ["inputs"], "every hole loop and every bound",
     NOTEST + "the choice depends on all sub-polygons.", [CPL], [("dynamic programming tables", CPL)], None, ["triangles added by hole filling"])
prop("C12", "Advancing-front filling closes the hole around fixed originals",
     "Advancing-front filling of a hole never ends in a memory fault, it returns for the hole left by one or two rings of triangles of a round surface in general position, and whenever it returns, the hole is closed by triangles: the surface is again an oriented manifold without that hole, every triangle that existed before still exists, every vertex that existed before is still there at exactly the same position, and all new positions are finite numbers.",
     ["inputs"], "every hole (any number of edges, planar or not) of every mesh; on flat or otherwise special positions the filling may instead report an error",
     NOTEST + "front evolution depends on geometry in many branches (close, merge, one or two new points).", [CPL],
     [("holeFillAdvancingFront_", CPL), ("locking of loop vertices", CPL)], None, ["holeFillAdvancingFront", "mesh contents"])
prop("C13", "Smoothing moves each free vertex by the stated centroid rule",
     "One step of Laplacian smoothing with strength e moves every free vertex from p to (1-e)p + e c, where c is the average (or cotangent-weighted average) of its neighbours' positions before the step, and Taubin smoothing alternates such steps with +shrink and -inflate; n iterations equal n single ones. Vertices on the boundary and locked vertices keep their positions exactly.",
     ["inputs", "histories", "schedules"], "every mesh, lock set, strength and iteration count, under every thread schedule",
     NOTEST + "the result must not depend on vertex order, mesh shape or threads.", ["src/tinymesh/filters/smooth.cpp"],
     [("two-phase update: all centroids first, then positions", "src/tinymesh/filters/smooth.cpp")], None, ["smoothLaplacian", "smoothTaubin"])
prop("C14", "Locked vertices survive remeshing in place",
     "Remeshing never moves or removes a locked vertex, whether it was locked by the user or because it lies on an edge sharper than the given angle, and never collapses or flips an edge of a triangle that has a locked corner; all vertices that have an incident edge sharper than the angle are kept this way.",
     ["schedules", "inputs", "histories"], "every mesh, lock set, feature angle and every random processing order",
     NOTEST + "the processing order is random and differs in every run.", ["src/tinymesh/remesh/remesh.cpp", "src/tinymesh/filters/smooth.cpp"],
     [("lock tests before collapse/flip", "src/tinymesh/remesh/remesh.cpp"), ("lock test in smoothing", "src/tinymesh/filters/smooth.cpp")], None, ["positions of locked vertices"])
prop("C15", "Parallel filters give one result for all schedules",
     "The smoothing and denoising filters give identical positions, bit for bit, for every number of threads and every assignment of vertices or faces to threads, and repeated runs on equal meshes agree.",
     ["schedules", "inputs"], "every thread count, loop schedule and mesh",
     NOTEST + "races and order dependences show only under some schedules.", ["src/tinymesh/filters/smooth.cpp", "src/tinymesh/filters/denoise.cpp"],
     [("separate read and write phases of each parallel loop", "src/tinymesh/filters")], None, ["positions after each filter"])
prop("C16", "Filters only move vertices and analyses change nothing",
     "Smoothing, fairing and denoising leave triangles, hole loops, locks, numbering and counts untouched and only change positions; measuring, Laplacians, distance queries, feature analysis, cloning and saving change nothing at all, and repeating one of them gives the same answer.",
     ["inputs", "histories"], "every filter and analysis call on every reachable mesh",
     NOTEST + "side effects are not looked for by tests.", ["src/tinymesh/filters/smooth.cpp", "src/tinymesh/filters/denoise.cpp", "src/tinymesh/ops"],
     [("filters use only setPos", "src/tinymesh/filters"), ("const access", "src/tinymesh/ops")], None, ["full mesh dump before/after"])
prop("C17", "Remeshing keeps a valid surface of the same topology",
     "For every random processing order, remeshing returns an oriented manifold mesh with consistent navigation, with the same number of components, the same Euler characteristic and the same boundary loops (as many, each as long) as the input, and every single edit it makes is a legal split, flip or collapse.",
     ["schedules", "inputs"], "every manifold mesh, threshold pair, iteration count and random order, verbose or not",
     NOTEST + "the order is drawn from a hardware random source in each run.", ["src/tinymesh/remesh/remesh.cpp", M],
     [("edit operations with refusal", M)], None, ["mesh after remeshing", "edit calls made"])
prop("C18", "Remeshing edits only the edges its rules call for",
     "During remeshing every edge split is at least the long factor times the mean edge length measured at the start, every edge collapsed is at most the short factor times that mean, an edge is collapsed only if no neighbour of its second end is as far as the long limit from its first end, and an edge is flipped only if that strictly lowers the total deviation of the four vertices from their ideal number of incident edges (six, or four on the boundary).",
     ["schedules", "inputs"], "every mesh, threshold pair and random order",
     NOTEST + "each decision depends on the state left by all previous random decisions.", ["src/tinymesh/remesh/remesh.cpp"],
     [("length and valence guards", "src/tinymesh/remesh/remesh.cpp")], None, ["edit calls made, with lengths and degrees at call time"])
prop("C19", "Simplification stops at its target and keeps the surface valid",
     "Simplification to a target number of faces removes faces two at a time and stops as soon as the target is reached, so it never ends more than one face below it, and as long as the target is not reached it plays no part; if the mesh already has no more faces than the target nothing changes at all. The result is a manifold mesh with consistent navigation and the topology of the input, vertices and edges on the boundary are kept exactly, it always returns, and the verbose flag makes no difference.",
     ["inputs", "histories"], "every manifold mesh, target and trial count, verbose or not",
     NOTEST + "each contraction depends on all previous ones.", ["src/tinymesh/remesh/simplify.cpp", "src/tinymesh/core/progress.h", M],
     [("removal counter", "src/tinymesh/remesh/simplify.cpp"), ("boundary tests", "src/tinymesh/remesh/simplify.cpp")], None, ["simplifyQEM", "mesh contents"])
prop("C20", "Closest-point and distance queries return the true minimum",
     "For any set of triangles and any query point, the closest point returned lies on one of the triangles and no point of any triangle is nearer, and the distance returned is the distance to it, independent of the order of the triangles, of scale and of position in space.",
     ["inputs"], "every non-empty triangle set (also degenerate triangles, duplicates, any size) and query point",
     NOTEST + "the tree shape and pruning depend on all inputs.", ["src/tinymesh/core/bvh.cpp", "src/tinymesh/core/triangle.cpp", "src/tinymesh/core/bounds.h"],
     [("closest point on triangle by region", "src/tinymesh/core/triangle.cpp"), ("bounding-volume pruning", "src/tinymesh/core/bvh.cpp")], None, ["BVH::closestPoint/distance", "Triangle::closestPoint/distance"])
prop("C21", "Mesh-to-mesh distances follow their definition",
     "The per-vertex distances from one mesh to another are, in vertex order, the true shortest distances from each vertex to the other mesh's surface, and the Hausdorff distance is the largest such value over both directions; so it is symmetric and zero for equal meshes.",
     ["inputs"], "every pair of meshes, closed or not", NOTEST + "needs the minimum over all triangles for all vertices.",
     ["src/tinymesh/ops/metrics.cpp", "src/tinymesh/core/bvh.cpp"], [("two directed passes", "src/tinymesh/ops/metrics.cpp")], None, ["getPerVertexShortestDistances", "getHausdorffDistance"])
prop("C22", "Laplacian matrices match the mesh",
     "Each mesh Laplacian is a symmetric square matrix over the vertices with zero row sums whose off-diagonal entries are non-zero only for pairs joined by an edge: -1 per neighbour for the adjacency kind (so the diagonal is the number of neighbours), minus half the sum of the two opposite cotangents for the cotangent kind, and -exp(-l^2 / 4h) / (4 pi h) for an edge of length l and mean edge length h for the third kind.",
     ["inputs", "histories"], "every reachable mesh (cotangent values: interior edges, i.e. every edge of a mesh without holes)",
     NOTEST + "must hold for every mesh and vertex numbering.", ["src/tinymesh/ops/operators.cpp", "src/tinymesh/core/halfedge.cpp"],
     [("one entry per outgoing half-edge", "src/tinymesh/ops/operators.cpp")], None, ["getMeshLaplacian"])
prop("C23", "Saving and loading give the mesh back",
     "Saving a mesh to OBJ or PLY writes exactly its vertices in order and its triangles (never hole faces) with their orientation, and loading that file gives a mesh with the same triangles on the same positions to single precision, also after any edit history; coordinates that are single-precision numbers come back exactly, so vertices that differ stay distinct. A destination that cannot be opened, an unknown file type, a file that does not exist or a PLY file without vertices or faces is reported as an error.",
     ["inputs", "histories"], "every reachable mesh in which no two edges join the same vertices, and both formats",
     NOTEST + "no file is ever written or read by a test.", [M], [("saveOBJ/savePLY/loadOBJ/loadPLY", M)], None, ["file contents", "load"])
prop("C24", "A clone is equal and independent",
     "Cloning a mesh (with pairwise distinct positions) gives a mesh with the same triangles on the same positions, after any edit history; later edits, moves or destruction of either mesh do not affect the other.",
     ["histories", "inputs"], "every reachable mesh in which no two edges join the same vertices, and every interleaving of later edits on original and clone",
     NOTEST + "sharing shows only through later edits.", [M], [("rebuild from vertex and index lists", M)], None, ["clone"])
prop("C25", "Vector and box arithmetic is componentwise and consistent",
     "For vectors of every dimension and element type the arithmetic operators (vector-vector and vector-scalar in both orders), negation, equality, dot, cross, length, componentwise min, max and abs give the componentwise results, never touch memory outside the vector, and equal vectors have equal hashes; dividing by zero is reported by an exception. No operation changes anything but its target, also when target and operands are the same variable. A bounding box contains exactly the points between its corners, merging gives the smallest box containing both, and its distance to a point is zero inside and the Euclidean gap outside.",
     ["inputs"], "every vector, scalar, dimension 2 to 4 and element type, every box and point",
     "The existing test checks some operators on a few dozen fixed 3-component samples; other dimensions, scalar subtraction, hashing and boxes are never exercised.",
     ["src/tinymesh/core/vec.h", "src/tinymesh/core/bounds.h"], [("componentwise loops", "src/tinymesh/core/vec.h")], None, ["Vec", "Bounds"])
prop("C26", "Areas, angles and curvature totals obey the surface's geometry",
     "On every closed mesh the vertex areas add up to the total triangle area and each face's area is the sum of its corners' shares, the Gaussian curvatures times vertex areas add up to two pi times the Euler characteristic, and the mean edge length, mean face area, mean angle between faces, face areas, corner shares, unit face normals (on the side from which the triangle's corners run counter-clockwise) and edge lengths agree with the positions.",
     ["inputs", "histories"], "every closed reachable mesh without degenerate triangles",
     NOTEST + "totals constrain all vertices of all shapes at once.", ["src/tinymesh/core/vertex.cpp", "src/tinymesh/core/face.cpp", M],
     [("mixed Voronoi areas and angle deficits", "src/tinymesh/core/vertex.cpp")], None, ["K, volonoiArea, area, normal, length, mean values"])
prop("C27", "Curvature analysis does not depend on labelling or placement",
     "Principal curvatures of a closed mesh satisfy max >= min at every vertex, their directions are unit length (or zero), orthogonal and each belongs to its own curvature, and renumbering vertices, moving the mesh rigidly or scaling it changes the results only accordingly, as it does the magnitudes of the curvature derivatives; on finely meshed surfaces of revolution curvatures, directions and derivatives come near those of the smooth surface. Heat kernel signatures are the heat left at each vertex, summed over the K slowest modes of the given matrix, at geometrically spaced times between 4 ln 10 / lambda_K and 4 ln 10 / lambda_2; so they are not negative, do not grow with time and are permuted by renumbering.",
     ["inputs"], "every closed triangle mesh without degenerate triangles and every renumbering, rigid motion and scale; connected meshes and K below the number of vertices for the signatures",
     NOTEST + "feature analysis is not tested at all.", ["src/tinymesh/ops/features.cpp"],
     [("per-vertex frames and tensor averaging", "src/tinymesh/ops/features.cpp")], None, ["getPrincipalCurvatures", "getPrincipalCurvaturesWithDerivatives", "getHeatKernelSignatures"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
prop("C28", "Malformed input and misuse are reported and survivable",
     "The library's own error is reported, and nothing is read out of place or silently returned, for: a triangle list (given to a mesh or to a search tree) whose length is not a multiple of three or that names an entry which is not there; an OBJ or PLY file whose faces do; a PLY file with other number types than the reader handles (unless it is read right); a missing file or unknown file type; an element number outside the mesh; normal filtering or curvature and feature analysis of a mesh with a hole whose loop is not a triangle; the triangle of a face with other than three corners and the share of a vertex in a face it is not a corner of; a simplification target that is not positive; at least as many heat kernel modes as vertices; an unknown Laplacian kind; the distance to no triangles at all. In the build made for the Python module the report is an exception that reaches the caller, also from parallel filters; a mesh refused by a filter keeps its exact positions, and an object whose building or loading was refused can be built anew as if it were fresh. The same calls with proper arguments are carried out.",
     ["inputs", "configurations", "schedules"], "every call of the listed kinds with proper or improper arguments, in the plain build and in the build for the Python module, with any number of threads",
     NOTEST + "improper calls end the process or corrupt memory, and the outcome depends on the build.",
     [M, "src/tinymesh/core/bvh.cpp", "src/tinymesh/filters/denoise.cpp", "src/tinymesh/remesh/simplify.cpp", "src/tinymesh/ops/features.cpp", "src/tinymesh/core/debug.h"],
     [("checks at the start of construct/load", M), ("Error and Assertion", "src/tinymesh/core/debug.h"), ("element access by number", "src/tinymesh/core/mesh.h"), ("check before the parallel loops", "src/tinymesh/filters/denoise.cpp")],
     None, ["process outcome", "exceptions", "mesh contents after an exception"])
prop("C29", "Implicit fairing solves the implicit smoothing step",
     "One iteration of implicit fairing with strength e on a closed mesh moves every vertex p to a new place q such that q = p + e (c - q), where c is the average of the new places of its neighbours weighted by the cotangent weights of the old positions; so with non-negative weights no vertex leaves the range spanned by the old positions, however large the strength. Several iterations are the same as as many calls of one, zero strength moves nothing beyond rounding and zero iterations leave every position exactly as it was.",
     ["inputs"], "every closed triangle mesh whose cotangent weights are not negative, every strength and number of iterations",
     NOTEST + "each new position depends on all others through the linear system.", ["src/tinymesh/filters/smooth.cpp", "src/tinymesh/core/halfedge.cpp"],
     [("system I - e K from normalised cotangent weights", "src/tinymesh/filters/smooth.cpp")], None, ["implicitFairing", "positions"])
prop("C30", "Normal filtering moves vertices by its weighted normals",
     "One iteration of Gaussian or bilateral normal filtering on a closed mesh smooths positions by the default Taubin smoothing, replaces each triangle's normal by the direction of the sum of the neighbours' normals weighted by their area, by a Gaussian of the distance of the centroids (in multiples of sigma times the mean edge length of the mesh given) and for the bilateral filter by a Gaussian of the difference of the normals, and then moves each vertex by the area-weighted average of its offsets to the planes through its triangles' centroids along the new normals. The Gaussian exp(-x^2 / 2) is continued from 2 to 4 by (4 - x)^4 / (16 e^2), so a weight never jumps or grows with distance. Zero iterations leave every position exactly as it was.",
     ["inputs"], "every closed triangle mesh without degenerate triangles, both filters, all sigmas and numbers of iterations",
     NOTEST + "every vertex depends on a neighbourhood of several rings.", ["src/tinymesh/filters/denoise.cpp"],
     [("kernel K", "src/tinymesh/filters/denoise.cpp"), ("normal and position passes", "src/tinymesh/filters/denoise.cpp")], None, ["denoiseNormalGaussian", "denoiseNormalBilateral", "positions"])
prop("C31", "Context-coherent filling closes all holes and keeps the input",
     "Context-coherent filling returns a closed, consistently oriented manifold mesh with consistent navigation and the topology of the input with its holes closed: each hole raises the Euler characteristic by one and no parts are joined or split. Every triangle of the input is still there with every input vertex exactly in place, new vertices have finite positions, and all this for any number of iterations, including none.",
     ["inputs", "histories"], "every manifold mesh with any number of holes whose result has more than 300 vertices, where no two vertices of a hole are joined by an edge outside of it and the first filling has no degenerate triangle; any number of iterations",
     NOTEST + "thousands of edits are made, each depending on all previous ones.", ["src/tinymesh/restore/completion.cpp", "src/tinymesh/core/completion.cpp"],
     [("edits that repair the filling", "src/tinymesh/restore/completion.cpp"), ("filling by advancing front", "src/tinymesh/core/completion.cpp")], None, ["holeFillContextCoherent", "mesh contents"])
prop("C32", "Feature lines follow the change of sign of curvature derivatives",
     "A triangle is a ridge (valley) triangle if the derivative of the largest curvature along its direction changes sign on one of its edges the way a maximum (minimum) does, and exactly the vertices on edges between a plain triangle and its only ridge or valley neighbour are flagged. The field at these points across such edges towards ridges and away from valleys, and elsewhere along the harmonic extension with cotangent weights; it has length one, or is zero where no feature is connected. The result does not depend on the arbitrary signs of the principal directions.",
     ["inputs", "configurations"], "every closed triangle mesh without degenerate triangles, at every scale, with smoothed and unsmoothed tensors; comparisons of curvatures closer than the resolution are left out, the extension is judged where all weights are non-negative",
     NOTEST + "the tests only look at the shape of the result.", ["src/tinymesh/ops/features.cpp"],
     [("edge test", "src/tinymesh/ops/features.cpp"), ("extension of the directions", "src/tinymesh/ops/features.cpp")], None, ["getFeatureLineField", "getFeatureLineFieldWithFlags", "getPrincipalCurvaturesWithDerivatives"])
prop("C33", "The Python module does what the library does",
     "A call of the Python module has the effect and the result of the library call of the same meaning with the same values: on the mesh as on the values returned, whatever form the values come in (lists, arrays of any number type or layout, numbers) and whether they are given by position or by name. Arguments left out take the library's own defaults, except that the two normal filters make three iterations; wrong, missing, doubled or unknown arguments raise a TypeError and errors of the library a RuntimeError, and neither ends the interpreter nor changes a mesh. A vertex or face obtained from a mesh stays usable as long as it is held, also after the mesh's name is gone.",
     ["programs", "inputs", "histories"], "every sequence of module calls on meshes without degenerate triangles in which vertices and faces are not used after the connectivity of their mesh was changed",
     NOTEST + "the tests of the module do not run in its test suite, and they would not notice swapped arguments, changed defaults or handles that dangle.", ["src/pybind11.cpp"],
     [("argument names and defaults", "src/pybind11.cpp"), ("conversion of vectors", "src/pybind11.cpp"), ("ownership of vertices and faces", "src/pybind11.cpp")], None, ["module functions", "Mesh, Vertex and Face objects", "exceptions"])
prop("C34", "L0 denoising solves its stated rounds and keeps the centre",
     "L0 denoising of a closed mesh with weights alpha and beta makes as many rounds as beta takes, growing by the root of two, to reach 1000, alpha halving each time: a round keeps the edge vectors D x whose squared length is at least 0.02 (mean edge length)^2 (mean dihedral angle) / b, wants zero of the others, and solves x + a R'R x + b D'(D x - kept) = p, where a and b are the weights times the mean edge length, p the positions given, D the area-based edge operator of the Taubin-smoothed surface and R the sum of both ends minus both opposite corners of each edge. Positions stay finite and their mean stays where it was, on any mesh without degenerate triangles. If beta is 1000 or more no position changes at all.",
     ["inputs"], "every mesh without degenerate triangles and all non-negative weights; the rounds themselves for closed meshes, where no edge vector is at the limit within rounding",
     NOTEST + "every position depends on all others through a linear system and on discrete choices in every round.", ["src/tinymesh/filters/denoise.cpp"],
     [("edge operators R and D", "src/tinymesh/filters/denoise.cpp"), ("alternating rounds", "src/tinymesh/filters/denoise.cpp")], None, ["denoiseL0Smooth", "positions"])
prop("C35", "Simplification merges cheapest edges first, where the error is least",
     "Within one pass of simplification, edges are merged in the order of their error: the least possible sum of squared distances from the planes of the triangles around both ends as they were when the pass began, triangles with an edge on the boundary left out. The vertex that remains is put at the point where that sum is least, or in the middle of the edge where there is no single such point; it takes no part in a second merge of the pass, and no vertex moves that was not merged, also not when a merge was refused. Edges are then flipped only if that brings the numbers of neighbours of the four vertices closer to six in sum.",
     ["inputs", "histories"], "every manifold triangle mesh, every target and number of trials; edges at triangles without area and points more than three mean edge lengths away are left out",
     NOTEST + "the tests of simplification only require that it returns.", ["src/tinymesh/remesh/simplify.cpp"],
     [("quadrics and their minimum", "src/tinymesh/remesh/simplify.cpp"), ("queue of edges and marks of vertices", "src/tinymesh/remesh/simplify.cpp")], None, ["simplifyQEM", "edges merged and flipped", "positions between passes"])

with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
