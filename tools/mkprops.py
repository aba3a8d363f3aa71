"""Writes /verif/properties.jsonl (kept as a program so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

U, E, T, C, R, L, K = ("dreimac/utils.py", "dreimac/emcoords.py", "dreimac/toroidalcoords.py",
    "dreimac/circularcoords.py", "dreimac/projectivecoords.py", "dreimac/lenscoords.py",
    "dreimac/complexprojectivecoords.py")
N = "dreimac/combinatorial.py"

prop("C01", "Landmarks are a greedy farthest-point sample with true distances",
 "Every landmark selection (from a point cloud with any cross-distance function, from a distance matrix, and the one the coordinate objects make when not all points are landmarks) starts at the first point and repeatedly adds a point farthest from those already chosen, and reports as insertion radii exactly those farthest distances and as landmark-to-data distances the true ones. "
 "The geodesic variant does so for shortest-path distances in the undirected nearest-neighbour graph, never chooses a point twice, and returns a permutation of all points, landmarks first, that labels the columns of the distances it returns. "
 "A coordinate object never uses the same data point as a landmark twice, also when data points repeat.",
 ["inputs", "configurations"],
 "all finite metric inputs (ties, repeated points, disconnected neighbour graphs), all landmark counts, all three routines",
 "The tests never look at a landmark, a radius or a distance; they only run four large data sets through the pipeline.",
 [U, E],
 [("greedy loop over the running minimum of distances", U + ": get_greedy_perm_pc, get_greedy_perm_dm, landmark_geodesic_distance"),
  ("landmark distances kept from persistence computation", E + ": EMCoords.__init__")],
 ["GeometryUtils.get_greedy_perm_pc", "GeometryUtils.get_greedy_perm_dm", "GeometryUtils.landmark_geodesic_distance", "GeometryUtils.get_csm"],
 [("perm", "landmarks chosen so far", U), ("ds", "distance of each point to the chosen landmarks", U)])

prop("C02", "Coordinates do not depend on how the metric is supplied",
 "The same metric data given as a point cloud, as a square distance matrix, or as a rectangular matrix of distances from a subsample to all points gives the same persistence diagrams and, point for point, the same coordinates up to a symmetry of the target space. "
 "Integer, single or double precision storage of exactly representable distances and verbose output make no difference, and one coordinate is returned for every data point (every column, for a rectangular matrix), in order.",
 ["inputs", "configurations"],
 "all metric inputs, all supply forms and storage types, all coordinate kinds",
 "The tests use one form per data set and never compare two.",
 [E, C, T, R, L, K],
 [("case split on distance_matrix and shape", E + ": EMCoords.__init__")],
 ["CircularCoords, ToroidalCoords, ProjectiveCoords, LensCoords, ComplexProjectiveCoords: constructor and get_coordinates"])

prop("C03", "Persistent classes are complete, genuine, sorted, aligned with their cocycles",
 "In every computed positive dimension the classes are ordered by non-increasing persistence, and the birth, death and cocycle reported under one index belong to the same class. "
 "Each cocycle is expressed by landmark numbers with values in the chosen prime field, satisfies the cocycle condition on every simplex of the landmarks' Rips complex at each scale before the death, and is not a coboundary at any scale between birth and death. The classes present at any scale are independent, and none is missing: the intervals are those of the Rips filtration of the landmarks over the chosen field.",
 ["inputs", "configurations"],
 "all metrics, primes, maximum dimensions, numbers of landmarks smaller than, equal to the number of points",
 "The tests never inspect a diagram or a cocycle.",
 [E, U],
 [("sorting diagrams and cocycles with one permutation", E + ": EMCoords.__init__"), ("renumbering cocycle vertices from data to landmarks", U + ": CohomologyUtils.reindex_cocycles")],
 ["get_representative_cocycle"],
 [("dgms, cocycles", "persistence diagrams and representative cocycles per dimension", E)])

prop("C04", "Integer cocycles lift the chosen class, or an error says there is none",
 "Lifting a cocycle from the prime field to the integers keeps its support, changes each value only by a multiple of the prime and puts it in the symmetric range around zero. "
 "With checking on, whenever the lifted cochain is not an integer cocycle at the chosen scale it is replaced by one that is and that is congruent to it modulo the prime, independently for each of the selected classes. "
 "If no such integer cocycle exists an error naming the requested class is raised, and no coordinates are returned.",
 ["inputs", "configurations"],
 "all complexes (with and without torsion), primes, single and multiple classes, degree one (circle, torus) and two (complex projective)",
 "One test reaches one repair of one class with prime 3; no test has torsion, two repaired classes, or looks at the cocycle.",
 [U, T, K],
 [("symmetric lift", U + ": CohomologyUtils.lift_to_integer_cocycle"), ("cocycle check and integer linear program", T + ": ToroidalCoords.get_coordinates; " + K + ": ComplexProjectiveCoords.get_coordinates")],
 ["CohomologyUtils.lift_to_integer_cocycle", "get_coordinates (windings of the result, or the error)"])

prop("C05", "The filtration scale and the ball radius follow the documented rule",
 "The filtration scale is the point a fraction perc of the way from the start to the death of the selected class, where the start is its birth, doubled in the standard range; the covering balls have half that radius, and a data point gets coordinates exactly when it lies strictly within that radius of some landmark. "
 "For several classes the latest birth and the earliest death are used. "
 "A start beyond the death, or classes with no common lifetime, raise an error instead of returning coordinates.",
 ["inputs", "configurations"],
 "all birth and death pairs, perc in [0,1], both ranges, one or several classes, all coordinate kinds",
 "The tests use two values of perc with the standard range only and never see a radius or an error.",
 [E, T],
 [("interpolation and range check", E + ": EMCoords.get_cover_radius"), ("combination of several lifetimes", T + ": ToroidalCoords.get_coordinates")],
 ["get_cover_radius", "get_coordinates (which points are nan)"])

prop("C06", "Weights form a partition of unity subordinate to the landmark balls",
 "For every bump function the weights of a covered data point are non-negative, zero outside the open ball of each landmark, proportional to the bump function of its distance inside, and sum to one; the chosen ball is the first one that contains the point. "
 "Points in no ball are counted in one warning and get undefined (nan) coordinates, and their presence changes the coordinates of no other point.",
 ["inputs", "configurations"],
 "all landmark-to-data distances, radii, built-in and custom bump functions, any set of uncovered points, all coordinate kinds",
 "The tests use the linear bump only, never read a weight and have no uncovered point.",
 [E, U],
 [("bump, normalization, first ball", E + ": EMCoords.get_covering_partition"), ("bump functions", U + ": PartUnity"), ("reduction over covered points", U + ": EquivariantPCA.ppca")],
 ["get_covering_partition", "PartUnity.linear, quadratic, exp", "get_coordinates"])

prop("C07", "Circular coordinates are continuous and wind exactly as the chosen class",
 "With cocycle checking on, circular coordinates lie in the circle's range and vary continuously as a data point moves within the cover, whichever ball represents it. "
 "Along every closed loop of landmarks joined at the filtration scale the coordinate winds an integer number of times, congruent modulo the prime to the value of the chosen class on the loop, and equal to the value of its symmetric integer lift when that is already a cocycle; it does not wind around any triangle present at that scale.",
 ["inputs", "configurations"],
 "all metrics, primes, class indices, scales, bump functions and data positions in the cover",
 "One test checks one curve with a tolerance of a tenth of a turn between neighbouring samples; windings are never compared with the class.",
 [C, T, U],
 [("harmonic integration and sparse formula", T + ": _integrate_harmonic_representative, _sparse_integrate"), ("coboundary operator", U + ": CohomologyUtils.make_delta0")],
 ["CircularCoords.get_coordinates", "ToroidalCoords.get_coordinates"])

prop("C08", "Circular coordinates integrate the harmonic representative of the class",
 "The circle-valued map is the smoothest in its class: the changes of the coordinate along the landmark edges present at the filtration scale sum to zero at every landmark, so no other map in the class has smaller energy on those edges. "
 "Up to one rotation per connected component, every data point's coordinate is that of any landmark whose ball contains it plus the average, by the partition of unity, of the changes along the edges from that landmark.",
 ["inputs", "configurations"],
 "all metrics, scales, classes, bump functions and data positions",
 "No test relates a coordinate to a formula or to an energy.",
 [T, U],
 [("least squares against the coboundary", T + ": _integrate_harmonic_representative, _make_inner_product"), ("integration over data", T + ": _sparse_integrate")],
 ["CircularCoords.get_coordinates"])

prop("C09", "Toroidal coordinates are an integer change of basis to a reduced one",
 "With several classes selected, the returned circular maps are, modulo full turns, integer combinations of the individual classes' maps by a matrix of determinant one in absolute value, so that together they represent the same lattice of classes. "
 "Their harmonic representatives form a Lenstra-Lenstra-Lovasz reduced basis (size reduced, exchange condition with factor 3/4) with respect to the inner product on edges, for any number of classes, and the reported change of basis and Gram matrices are those of the maps returned. "
 "The reduction terminates for every basis, and one map per requested class is returned.",
 ["inputs", "configurations"],
 "all linearly independent families of classes and inner products, any number of classes",
 "The tests compare one norm before and after on four data sets; that norm is the same for reduced and unreduced results of many wrong reductions.",
 [T, U],
 [("lattice reduction", T + ": _lll, _gram_schmidt, _reduce_circular_coordinates, _gram_matrix"), ("combination of maps", U + ": CircleMapUtils.linear_combination")],
 ["ToroidalCoords.get_coordinates"],
 [("B, Q, change", "basis, orthogonalization, accumulated change of basis", T)])

prop("C10", "Real projective coordinates realize the chosen class modulo two",
 "Real projective coordinates give each covered data point a unit vector of length proj_dim + 1, well defined up to sign: choosing another ball that contains the point changes only the sign, and without reduction the squared entries are the partition of unity weights. "
 "Following data around any loop of landmarks joined at the filtration scale, the vector returns to itself times minus one to the value of the chosen class on the loop.",
 ["inputs", "configurations"],
 "all metrics, classes, scales, bump functions, target dimensions and reduction modes",
 "The tests check lengths and a variance that is identically zero in the default mode; no sign is ever looked at.",
 [R, U, E],
 [("transition matrix of signs", R + ": ProjectiveCoords.get_coordinates")],
 ["ProjectiveCoords.get_coordinates"])

prop("C11", "Lens coordinates realize the chosen class modulo the prime",
 "Lens coordinates give each covered data point a complex unit vector of length complex_dim, well defined up to a p-th root of unity: choosing another ball that contains the point multiplies the vector by the root of unity given by the cocycle, and without reduction the squared moduli are the partition of unity weights. "
 "Following data around any loop of landmarks joined at the filtration scale, the vector returns to itself times the root of unity whose exponent is the value of the chosen class on the loop, including its sign convention.",
 ["inputs", "configurations"],
 "all metrics, primes, classes, scales, bump functions, complex dimensions and reduction modes",
 "No test calls the lens coordinates.",
 [L, U, E],
 [("transition matrix of roots of unity", L + ": LensCoords.get_coordinates")],
 ["LensCoords.get_coordinates"])

prop("C12", "Complex projective coordinates realize the chosen degree two class",
 "Complex projective coordinates give each covered data point a complex unit vector of length proj_dim + 1, well defined up to a unit complex number: choosing another ball that contains the point changes the vector only by such a factor, and without reduction the squared moduli are the partition of unity weights. "
 "The total phase curvature of the map over every closed surface of landmark triangles at the filtration scale is a whole number of turns, congruent modulo the prime to the value of the chosen class on the surface and equal to its symmetric integer lift's when that is a cocycle; it vanishes on the boundary of every tetrahedron present, and the curvatures of the triangles around each edge balance.",
 ["inputs", "configurations"],
 "all metrics with degree two classes, primes, scales, bump functions and data positions",
 "The tests check lengths and a variance that is identically zero in the default mode.",
 [K, U, E],
 [("tensor of the harmonic cocycle and integration", K + ": _two_cocycle_to_tensor, _one_cocycle_to_tensor, _sparse_integrate"), ("coboundary operators", U + ": CohomologyUtils.make_delta1, make_delta2_compact")],
 ["ComplexProjectiveCoords.get_coordinates"])

prop("C13", "Projective dimension reduction is equivariant and keeps the main directions",
 "In each of its three modes, reduction returns one unit vector of the requested length for each input point, for every requested dimension, except for points orthogonal to all kept directions; points that are not defined do not affect the others. "
 "Multiplying input points by unit scalars multiplies the results by the same scalars, up to one unitary change of basis of the target, so that maps to a quotient of the sphere stay well defined. "
 "Data that already lie in a subspace of the target dimension are kept with all mutual inner products, the direct mode keeps the principal directions of largest variance, dropping one by one drops a direction of least variance each time, and the exponential mode does so while halving the number of surplus directions. The variances reported are one per dropped direction and do not depend on unit scalars or the choice of basis.",
 ["inputs", "configurations"],
 "all real and complex inputs, dimensions, modes and scalars",
 "The tests check the number of points and a variance that the default mode leaves at zero.",
 [U],
 [("eigenvectors of the scatter matrix, truncation, normalization", U + ": EquivariantPCA.ppca")],
 ["EquivariantPCA.ppca", "get_coordinates of the projective kinds"])

prop("C14", "Computing coordinates has no lasting effect",
 "What a coordinate object returns for a request depends only on the data and the request: after any sequence of earlier requests, successful or failed, with any parameters, it equals what a fresh object returns. "
 "The diagrams and cocycles it reports, its input array, arrays passed to utilities and results already returned are never changed by later requests or utility calls documented as pure, and nor is the state of the random generators or NumPy's settings that the caller shares.",
 ["histories"],
 "all sequences of requests of all kinds of coordinates and queries on one object, and interleavings on several objects",
 "Every test makes one request per object.",
 [E, T, C, R, L, K, U],
 [("stored cocycles are copied before lifting", T + ": ToroidalCoords.get_coordinates; " + K + ": ComplexProjectiveCoords.get_coordinates")],
 ["get_coordinates", "get_representative_cocycle", "get_cover_radius", "utility functions"],
 [("stored classes", "diagrams and cocycles of the object", E)])

prop("C15", "Circle map utilities respect the group structure of the circle",
 "Offsetting a circle-valued map by a fraction rotates every point by that fraction of a turn, centering rotates all points by one common amount that takes the start of the fullest fiftieth of their range to the middle, and an integer combination of maps is the pointwise combination modulo full turns, for vectors and matrices alike; all results stay in the circle's range and depend on the inputs only modulo full turns where they should. "
 "Level set colouring rejects numbers of level sets that are not positive, alternates between as many equal bands as requested, is periodic, and with smoothing is the documented transition of the same bands; the cyclic colour map gives colours in the unit cube and is continuous across the seam.",
 ["inputs"],
 "all circle-valued maps, offsets, integer matrices, numbers of level sets and smoothing values",
 "No test calls these utilities except indirectly one matrix combination.",
 [U],
 [("arithmetic modulo 2 pi", U + ": CircleMapUtils")],
 ["CircleMapUtils.offset, center, linear_combination, levelset_coloring, to_sinebow"])

prop("C16", "Projective and lens map utilities are well defined on their quotients",
 "The Hopf map sends unit vectors to the unit sphere and equals on two vectors exactly when they differ by a unit scalar; the stereographic pictures of projective space are unchanged when representatives are negated, lie in the unit disk and have by default the direction of least spread in their middle; rotation matrices are rotations that carry the first direction to the second, for every pair of directions, almost parallel and opposite ones included. "
 "The picture of a lens space in the solid ball lies in the unit ball and, away from the boundary identification, is unchanged when a representative is multiplied by a p-th root of unity, for every prime p, and is one to one on orbits. "
 "The two-hemisphere picture of the sphere is faithful: each hemisphere goes to its own unit disk.",
 ["inputs"],
 "all unit vectors, primes, scalars and pairs of directions",
 "No test calls these utilities.",
 [U],
 [("closed formulas", U + ": ProjectiveMapUtils, LensMapUtils")],
 ["ProjectiveMapUtils.hopf_map, get_stereo_proj_codim1, rotmat, stereographic_projection_hemispheres, circle_to_3dnorthpole", "LensMapUtils.lens_3D_to_disk_3D"])

prop("C17", "Simplex numbering and coboundary operators are consistent",
 "For each dimension the simplices on n vertices are numbered one to one by 0 up to their count minus one, and all specialised numbering routines agree with the general one. "
 "Turning a sparse cocycle into a vector places each value, multiplied by the sign of the permutation that sorts its vertices, at its simplex's number and zero elsewhere. "
 "The coboundary operators have exactly the simplices strictly below the scale as nonzero rows, alternating signs, and consecutive ones compose to zero; the compact forms have one row per simplex present and nothing else.",
 ["inputs"],
 "all numbers of vertices, dimensions, vertex orders, distance matrices and scales",
 "The test checks five index values on five vertices and no operator.",
 [N, U],
 [("combinatorial number system", N), ("operators and densification", U + ": CohomologyUtils")],
 ["dreimac.combinatorial", "CohomologyUtils.sparse_cocycle_to_vector, order_simplex, parity, make_delta0, make_delta1, make_delta1_compact, make_delta2_compact"])

prop("C18", "Example generators return the documented samples",
 "Each generator of example data returns the documented number of points in the documented dimension, respecting every size parameter, with every point on the documented space (sphere, torus, Klein bottle, trefoil tube, circles, patches) within the documented noise, and the same points again for the same parameters and seed. "
 "Returned distance matrices are symmetric, non-negative and zero on the diagonal, and agree with the returned points: projective arc length for the projective plane, shortest paths through the disk or once through its identified boundary for the Moore space.",
 ["inputs", "configurations"],
 "all sizes, radii, noise levels, primes and seeds",
 "The tests use a handful of fixed sizes as input of something else and never examine the samples.",
 [U],
 [("closed formulas with a seeded generator", U + ": GeometryExamples")],
 ["GeometryExamples"])

prop("C19", "Plot helpers draw exactly the given data on the given axes",
 "Patch plots place each patch, unaltered and with one common grey scale, at the position given for it (or on the smallest square grid in row order), and the projective plots draw each point once at its given position with its given colour. "
 "Helpers that take axes draw only on those axes and return them, or on the current axes when none are given, and making axes equal gives all three the same range around unchanged centres.",
 ["inputs", "histories"],
 "all data sizes, axes arguments and sequences of plot calls on several axes",
 "No test calls a plot helper.",
 ["dreimac/plotting_utils.py"],
 [("artists added to axes", "dreimac/plotting_utils.py")],
 ["PlotUtils"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
