"""Manifest entries of the checks added after the edit operations."""
MORE = {
 "C01": ("TLA+ model of building (TLC, all triangle lists up to 3-5 triangles), every list replayed on the code; recorded random builds judged by TraceBuild",
         "All short lists are exhausted; longer lists, repeated positions and degenerate entries by recorded random builds."),
 "C02": ("TLA+ model of building (TLC, all triangle lists up to 3-5 triangles) predicts acceptance, every list replayed; recorded random malformed inputs judged by TraceBuild",
         "Process outcomes (returned, reported error, memory fault, hang) observed in child processes under AddressSanitizer."),
 "C03": ("TLA+ model of object reuse (Reuse.tla); recorded build/load/edit/rebuild histories compared with fresh objects by TraceBuild",
         "Histories of random length; reused object and fresh object are compared structure by structure."),
 "C10": ("TLA+ model of filling inside edit histories (MCFill, all triangulations); recorded fillings judged by TraceOps",
         "Exhaustive on small surfaces; larger holes by recorded histories with fills at any point."),
 "C11": ("TLA+ model of the choice rule (Fill/MCChoice); tables measured from the real loop, the choice made by the code judged by TraceFill",
         "Loops up to 7 vertices; comparisons closer than the measuring precision are left open in the specification."),
 "C12": ("TLA+ model of filling (MCFill); recorded advancing-front fillings judged by TraceOps",
         "Random surfaces and holes; each resulting structure is checked to represent a closed-over manifold containing the original. One known finding (loops with chords)."),
 "C13": ("TLA+ model of the centroid rules on integer positions (MCSmooth, TLC); recorded filter runs judged by TraceSmooth",
         "Uniform rules exactly up to rounding, cotangent rule in integer arithmetic where the weights are moderate."),
 "C15": ("TLA+ model of parallel loops (ParFor, all interleavings); recorded runs under a controlled scheduler and their memory footprints judged by TraceFilters",
         "Loops are run with up to 48 emulated threads; where footprints are independent all schedules are covered by the model, else explored."),
 "C16": ("TLA+ model of which calls may change what (Objects); complete before/after states of recorded calls judged by TraceFilters",
         "Random meshes with edit histories, locks and holes; every filter and every read-only operation."),
 "C23": ("TLA+ model of writing and reading (MCFiles, all small surfaces and orders); recorded files, parsed independently, and loaded meshes judged by TraceFiles",
         "The third-party readers are not installed here; stand-ins with the same interface are used for loading."),
 "C24": ("TLA+ model of meshes as objects (Objects); recorded programs that clone, edit and destroy judged by TraceObjects",
         "Up to four meshes at a time; all observable state of all of them is compared after each call."),
 "C14": ("TLA+ model of the passes of remeshing (MCRemesh, all lock sets and orders); recorded runs with every edit judged by TraceRemesh",
         "Random order is driven by the seed; sharp edges are recognised by a measured cosine with a margin."),
 "C17": ("TLA+ model of the passes of remeshing (MCRemesh, all orders); recorded runs replayed edit by edit in the specification by TraceRemesh",
         "Random order is driven by the seed; the surface after all edits must be the one the specification computes."),
 "C18": ("TLA+ model of the passes of remeshing (MCRemesh); lengths and valences of every recorded edit judged by TraceRemesh",
         "Lengths within 5 millionths of the mean of a limit are left open."),
 "C19": ("TLA+ model of simplification (MCRemesh in simplify mode, all orders); recorded runs judged by TraceRemesh",
         "Random targets and trial counts; runs with and without the verbose flag are compared."),
 "C20": ("TLA+ model of closest points and of tree pruning (MCDist, MCBvh, TLC); recorded queries compared with the exact minimum by TraceDist",
         "Integer triangles and points, placed by exact scalings and shifts; distances compared to 40 millionths."),
 "C21": ("TLA+ definition of the distances (Dist), models MCDist and MCBvh; recorded mesh pairs judged by TraceDist",
         "Lattice meshes, closed or open; minimum over all triangles and maximum over all vertices recomputed exactly."),
 "C22": ("TLA+ definition of the matrices (Measure), identities checked by TLC (MCMeasure); recorded matrices judged entry by entry by TraceMeasure",
         "Integer positions, so cotangents and lengths are computed in the specification; very thin triangles are left open."),
 "C26": ("TLA+ definition of areas, shares and totals (Measure), identities checked by TLC (MCMeasure); recorded measurements judged by TraceMeasure",
         "Integer positions, closed meshes by construction and after edits; angles are measured and only their relations are judged."),
 "C25": ("TLA+ model of vector and box variables (Vec, laws checked by TLC in MCVec); recorded random programs judged step by step by TraceVec",
         "Values are multiples of 1/16 so that all arithmetic is exact; three element types, dimensions 2 to 4, variables on the heap under AddressSanitizer."),
 "C27": ("TLA+ relations between curvature analyses of a surface and its images, and the heat kernel of small graphs (Curvature, MCCurvature by TLC); recorded analyses judged by TraceCurvature",
         "Heat kernels are recomputed in the specification from an eigenbasis that it verifies; curvatures are judged by relations and on surfaces of revolution."),
 "C28": ("TLA+ model of how a call gets its report out (MCCalls, all interleavings, two other designs refuted) and of which calls are proper (Calls); recorded calls of both builds judged by TraceCalls",
         "Each call in a child process under AddressSanitizer (heavy numeric sources without); whether both answers are allowed for a call is part of the specification."),
 "C29": ("TLA+ definition of the implicit step (Fairing; boundedness and uniqueness checked by TLC in MCFairing, the explicit step refuted); recorded steps put into the equation by TraceDenoise",
         "The equation is checked on the result in integers of 10^-3 of the grid; nothing is solved in the specification."),
 "C30": ("TLA+ definition of one filtering iteration (Denoise; the weight function checked by TLC in MCDenoise, a narrower Gaussian refuted); recorded iterations judged by TraceDenoise",
         "Roots (normals, areas, distances) come as witnesses that the specification verifies; triangles with too small weights are left out."),
 "C31": ("TLA+ model of fillings and of all improvements of them (Coherent, exhaustively by TLC in MCCoherent, merging originals refuted); recorded fillings judged by TraceCoherent",
         "Meshes of 305 to 450 vertices, as the method needs more than 300; eight of nine end with an improved filling, the rest with zero iterations."),
 "C32": ("TLA+ definition of feature lines (Field; all sign patterns and all markings of an octahedron by TLC in MCField, unaligned signs refuted); recorded fields judged by TraceField",
         "Closed meshes of 12 to 56 vertices; curvatures and their derivatives are those of the library (judged by C27)."),
 "C33": ("TLA+ model of how arguments are bound and of who keeps a mesh alive (Module; MCModule by TLC over all call forms, ownership by name refuted); recorded Python programs judged call by call by TraceModule",
         "The real pybind11 module and the interpreter; the array package is a small stand-in, and the C++ calls are made through C wrappers in the same process. Remeshing, simplification and two fillings depend on addresses, so for them the arguments that arrive are compared."),
 "C34": ("TLA+ definition of the rounds (Flatten; minimality of both halves of a round and the fixed centre checked by TLC in MCFlatten, two other rules refuted); recorded runs with their rounds verified by TraceDenoise",
         "The positions after each round come from the driver and are put into the equation by the specification; the last ones must be those of the library. Small meshes scaled so that the weights are near one."),
 "C35": ("TLA+ definition of a pass (Quadric; all passes over small surfaces by TLC in MCQuadric, four wrong rules refuted, and the least-error condition on lattices in MCPlanes); recorded passes judged by TraceQuadric",
         "Passes are told apart by the smoothing between them, merges and flips are seen by linker wrappers. Normals come as witnesses that the specification verifies; errors are compared to about one per cent."),
}
NA = {}
