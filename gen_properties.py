#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long strings stay readable)."""
import json, os
H = "include/small_gicp/"
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    return d
L = []
L.append(P("C01", "KdTree k-nearest-neighbour search is exact",
  "For every point cloud, query, k, leaf size, projection kind and scan setting, a KdTree search returns exactly min(k, number of points) distinct point indices with their true squared distances in ascending order, and no point outside the answer is closer than one inside it. With an early-termination threshold the answer may be approximate only when all k returned squared distances are below that threshold. Searching an empty tree finds nothing.",
  ["inputs", "configurations"], "all clouds (duplicates, collinear, tiny, empty), all queries, all k >= 1, all leaf sizes, both projections, all scan limits and thresholds",
  "kdtree_test compares a few hundred queries against brute force on two sampled clouds with default settings; ties, duplicates, degenerate leaf sizes and scan limits, k > N and the threshold are never reached.",
  [H+"ann/kdtree.hpp", H+"ann/knn_result.hpp", H+"ann/projection.hpp"],
  [("median split + pruned descent", H+"ann/kdtree.hpp create_node / knn_search"), ("bounded sorted insertion", H+"ann/knn_result.hpp push")],
  [("tree", "partition of the point indices by splitting planes", H+"ann/kdtree.hpp")], ["return value and output buffers of knn_search / nearest_neighbor_search"]))
L.append(P("C02", "Parallel KdTree construction is schedule independent",
  "A KdTree built by the OpenMP or TBB builder answers every query exactly (as the single-threaded tree does), whatever the number of threads, the task interleaving and the leaf size, and the building threads never make unsynchronised conflicting accesses.",
  ["schedules", "inputs", "configurations"], "all interleavings of the build tasks on any number of threads; all clouds large enough to be split between tasks",
  "The tests build each parallel tree once or twice under whatever schedule the machine happens to produce; a lost node-counter update or a missing join only shows under a particular interleaving.",
  [H+"ann/kdtree_omp.hpp", H+"ann/kdtree_tbb.hpp"],
  [("atomic node allocation", H+"ann/kdtree_omp.hpp create_node node_count++"), ("task join before return", H+"ann/kdtree_omp.hpp taskwait; kdtree_tbb.hpp parallel_invoke")],
  None, ["answers of the finished tree", "user point-access callbacks during the build"]))
L.append(P("C03", "Voxel-grid downsampling yields one exact mean per occupied voxel",
  "Single-threaded voxel-grid downsampling returns exactly one point for every voxel that contains at least one in-range input point, and that point is the mean of all input points of the voxel. Points whose voxel coordinate leaves the documented 21-bit range are ignored, and empty input (or input that is ignored completely) gives an empty output.",
  ["inputs", "configurations"], "all clouds and resolutions, including negative coordinates, voxel-boundary points, points beyond the coordinate range and single-voxel clouds",
  "downsampling_test checks one cloud at a few resolutions against a hash-based reference; no boundary, negative-edge, or out-of-range point is in it.",
  [H+"util/downsampling.hpp", H+"util/fast_floor.hpp"],
  [("pack-sort-accumulate", H+"util/downsampling.hpp voxelgrid_sampling"), ("floor of the scaled coordinate", H+"util/fast_floor.hpp")], None, ["returned cloud"]))
L.append(P("C04", "Parallel voxel-grid downsampling conserves every point",
  "Under every schedule and thread count, the OpenMP and TBB voxel-grid filters let each in-range input point contribute to exactly one output point, and every output point is the mean of input points that all lie in one voxel. Out-of-range points contribute to no output, every occupied voxel is represented, and there is at most one surplus output per thousand input points.",
  ["schedules", "inputs", "configurations"], "all interleavings of the worker threads, all thread counts, clouds spanning many blocks, clouds with arbitrary mixtures of out-of-range points",
  "The tests only bound the number of output points and the voxel occupancy on one cloud; lost, duplicated or mixed points inside a mean are invisible to them, and no out-of-range point is in the data.",
  [H+"util/downsampling_omp.hpp", H+"util/downsampling_tbb.hpp", H+"util/sort_omp.hpp"],
  [("atomic output slot reservation per block", H+"util/downsampling_omp.hpp fetch_add"), ("block-wise accumulation over the sorted keys", H+"util/downsampling_tbb.hpp")], None, ["returned cloud"]))
L.append(P("C05", "Parallel sorts return an ordered permutation under every schedule",
  "The OpenMP merge sort and quick sort and the TBB radix sort leave their range as a permutation of the input that is ordered by the given comparison or key, for every length, key distribution (including many equal keys), thread count and interleaving.",
  ["schedules", "inputs", "configurations"], "all lengths from 0 past the parallel cut-offs, all key distributions, all key widths and digit sizes, all schedules",
  "sort_omp_test / sort_tbb_test sort uniformly random data only; equal keys, adversarial pivots, odd digit widths, tile boundaries and task orderings are sampled by luck.",
  [H+"util/sort_omp.hpp", H+"util/sort_tbb.hpp"],
  [("task-parallel divide and conquer with join", H+"util/sort_omp.hpp"), ("per-tile histograms and prefix offsets", H+"util/sort_tbb.hpp")], None, ["the sorted range"]))
L.append(P("C06", "Random sampling returns distinct input points of the requested count",
  "Random downsampling returns exactly min(requested, available) points, each of which is a different input point with unchanged coordinates; every subset of the requested size can be drawn, and equal generator states give equal results. Empty input gives empty output.",
  ["inputs", "configurations"], "all clouds, all requested counts including zero and more than available, all generator states",
  "The tests check only the size of the result and that coordinates occur in the input for one seed.",
  [H+"util/downsampling.hpp"], [("sampling without replacement", H+"util/downsampling.hpp random_sampling")], None, ["returned cloud"]))
L.append(P("C07", "Incremental voxel map content is a function of the insertion history",
  "After any sequence of insertions with any poses and settings, the incremental point map stores exactly those transformed points that were admitted by the per-cell capacity and minimum-distance rules, with correspondingly transformed normals and covariances. A cell is dropped exactly when a periodic clean-up finds that it was last touched more than the configured horizon ago, and no other cell or point is ever lost.",
  ["histories", "inputs", "configurations"], "all insertion sequences, poses, horizons, clean-up cycles and per-cell settings, including settings changed between insertions",
  "voxelmap_test inserts one cloud repeatedly and looks at aggregate sizes; eviction timing, re-insertion after eviction, index remapping after clean-up and attribute transport are not pinned down.",
  [H+"ann/incremental_voxelmap.hpp", H+"ann/flat_container.hpp"],
  [("hash lookup + lru stamp", H+"ann/incremental_voxelmap.hpp insert"), ("admission rule", H+"ann/flat_container.hpp add")],
  [("voxels", "cell coordinate -> slot", H+"ann/incremental_voxelmap.hpp"), ("lru_counter", "number of insertions so far", H+"ann/incremental_voxelmap.hpp")], ["size, point enumeration and point/normal/cov access"]))
L.append(P("C08", "Voxel map search is exact over the configured neighbourhood",
  "At any point of any history, a voxel map search returns min(k, candidates) distinct point ids in ascending order of true distance, none of the points in the selected 1-, 7- or 27-cell neighbourhood being closer than a returned one. Every returned id can be resolved to the point it names with its attributes, and changing the neighbourhood size takes full effect.",
  ["histories", "inputs", "configurations"], "all insertion/eviction histories, all queries and k, every order of neighbourhood changes",
  "The tests query one map with one neighbourhood change order; an id that goes stale after eviction or a duplicate caused by re-configuration needs a particular history.",
  [H+"ann/incremental_voxelmap.hpp", H+"ann/knn_result.hpp", H+"ann/flat_container.hpp"],
  [("offset scan + id packing", H+"ann/incremental_voxelmap.hpp knn_search / calc_index"), ("neighbourhood selection", H+"ann/incremental_voxelmap.hpp set_search_offsets")], None, ["search outputs", "point access by id"]))
L.append(P("C09", "Gaussian voxel map keeps the mean and covariance of everything inserted",
  "After any history of insertions, each cell of a Gaussian voxel map reports the mean of all transformed points that fell into it since the cell was created and the mean of their transformed covariances, independent of how the points were split over insertions. Cells are created, kept and dropped by the same history rule as in the point map, and searches see these means.",
  ["histories", "inputs"], "all splits of the points over insertions, all poses, all eviction histories",
  "The tests insert a cloud once or repeat the same insertion, which leaves the mean unchanged and hides re-weighting errors.",
  [H+"ann/gaussian_voxelmap.hpp", H+"ann/incremental_voxelmap.hpp"],
  [("sum / finalize / un-finalize", H+"ann/gaussian_voxelmap.hpp add, finalize")], [("finalized", "whether mean and cov hold averages or sums", H+"ann/gaussian_voxelmap.hpp")], ["voxel means and covariances"]))
L.append(P("C10", "Levenberg-Marquardt never accepts a worse pose and reports what it did",
  "The Levenberg-Marquardt optimizer moves only along damped steps from its current pose and accepts a trial pose only if the total error (per-point factors plus the general factor, both evaluated at that pose) does not exceed the error at the current pose; rejected trials raise the damping and accepted ones lower it. It reports convergence if and only if the last accepted step was within both tolerances, stops within the configured outer and inner limits, and returns the last accepted pose with the matching error, linear system, iteration and inlier count.",
  ["histories", "inputs", "configurations"], "all sequences of error values and linear systems returned by the factors, all limits, dampings and tolerances",
  "Registration tests only look at the final pose on well-behaved data where nearly every step is accepted; rejection runs, plateaus, exhausted inner loops and general factors with their own error are not exercised.",
  [H+"registration/optimizer.hpp", H+"registration/termination_criteria.hpp", H+"registration/registration.hpp"],
  [("accept/reject loop", H+"registration/optimizer.hpp LevenbergMarquardtOptimizer"), ("tolerance test", H+"registration/termination_criteria.hpp")],
  [("lambda", "damping", H+"registration/optimizer.hpp"), ("result", "current pose and bookkeeping", H+"registration/optimizer.hpp")], ["calls into the reduction / general factor", "returned result"]))
L.append(P("C11", "Gauss-Newton applies exactly the solved steps and stops as configured",
  "The Gauss-Newton optimizer linearizes at its current pose, applies the damped solution of the total system (per-point factors plus general factor) to it, and repeats until the step is within both tolerances or the iteration limit is reached. It reports convergence if and only if the last step was within both tolerances and returns the composed pose with the last linear system, error, iteration and inlier count.",
  ["histories", "inputs", "configurations"], "all sequences of linear systems, all limits and tolerances",
  "The tests run Gauss-Newton only to a final pose on easy data.",
  [H+"registration/optimizer.hpp", H+"registration/termination_criteria.hpp"],
  [("iteration loop", H+"registration/optimizer.hpp GaussNewtonOptimizer")], None, ["calls into the reduction / general factor", "returned result"]))
L.append(P("C12", "Every reduction counts each accepted factor exactly once",
  "For any set of factors, the serial, OpenMP and TBB reductions evaluate each factor exactly once with its own source index and return the sum of the systems and errors of precisely the factors that accepted, independent of thread count, splitting and join order. Factors that reject contribute nothing, and concurrent evaluations never share unsynchronised state.",
  ["schedules", "inputs", "configurations"], "all numbers of factors (including none), all accept/reject patterns, all thread counts, splits and schedules",
  "Tests compare final poses of the backends with tolerances that hide a dropped or doubled factor.",
  [H+"registration/reduction.hpp", H+"registration/reduction_omp.hpp", H+"registration/reduction_tbb.hpp"],
  [("per-thread accumulators", H+"registration/reduction_omp.hpp"), ("split/join body", H+"registration/reduction_tbb.hpp")], None, ["factor callbacks", "returned sums"]))
L.append(P("C13", "Point factors pair each source point with its nearest admissible target",
  "When a point factor is linearized at a pose, it becomes an inlier if and only if a nearest target point exists and the rejector admits it (distance not above the maximum correspondence distance), it is then paired with a nearest target point of the transformed source point, and a factor that was an inlier before and is rejected now carries nothing over. Error evaluation at any later pose uses that pairing and gives zero for outliers.",
  ["histories", "inputs", "configurations"], "all clouds, poses, distance limits and sequences of linearize/evaluate calls",
  "No unit test looks at individual correspondences or at re-linearization after a change of inlier status.",
  [H+"factors/icp_factor.hpp", H+"factors/plane_icp_factor.hpp", H+"factors/gicp_factor.hpp", H+"registration/rejector.hpp"],
  [("search + reject + record", H+"factors/*_factor.hpp linearize"), ("distance test", H+"registration/rejector.hpp")], [("target_index", "current pairing or none", H+"factors/*_factor.hpp")], ["inlier flag, chosen target, error values"]))
L.append(P("C14", "Linearized systems match the cost they linearize",
  "The system returned by each factor type (point-to-point, point-to-plane, distribution-to-distribution, and their robustified forms) is the exact gradient and Gauss-Newton information matrix of its own error under a local pose perturbation, and the error it reports equals the error it evaluates at the same pose. A robust kernel scales system and error by one weight that is at most one, equals one inside the Huber width and never grows with the residual.",
  ["inputs", "configurations"], "all points, normals, covariances, poses, kernel kinds and widths",
  "No test examines H, b or e of a single factor; registration still converges with a slightly wrong system.",
  [H+"factors/icp_factor.hpp", H+"factors/plane_icp_factor.hpp", H+"factors/gicp_factor.hpp", H+"factors/robust_kernel.hpp", H+"util/lie.hpp"],
  [("Jacobian and residual", H+"factors/*_factor.hpp"), ("weight", H+"factors/robust_kernel.hpp")], None, ["H, b, e outputs"]))
L.append(P("C15", "Degree-of-freedom restriction constrains only the masked directions",
  "A degree-of-freedom restriction with a rotation and translation mask makes the optimizers leave the masked-out components of the pose essentially at the initial guess while the other components are estimated as without it, and setting one mask leaves the other unchanged. With every direction active it has no effect.",
  ["inputs", "configurations"], "all masks, all factors and initial poses",
  "registration_test checks one pair of masks on one data set.",
  [H+"factors/general_factor.hpp", H+"registration/optimizer.hpp"],
  [("diagonal regularisation of masked directions", H+"factors/general_factor.hpp RestrictDoFFactor")], None, ["linear system contribution", "estimated pose"]))
L.append(P("C16", "PCL-style registration depends only on its current inputs and settings",
  "After any sequence of setting and clearing clouds and covariances, swapping source and target, changing settings and aligning, the next alignment (pose, convergence flag, aligned cloud, fitness score) equals that of a fresh object given the current clouds, the covariances supplied or estimated for them and the current settings. Nothing computed for earlier inputs, resolutions or covariances leaks into later results.",
  ["histories", "configurations"], "all operation sequences over the public interface",
  "registration_test performs one fixed sequence of set, align, swap, align per type and only checks that the pose is good, which stale caches of nearly identical clouds satisfy.",
  [H+"pcl/pcl_registration.hpp", H+"pcl/pcl_registration_impl.hpp", H+"pcl/pcl_proxy.hpp"],
  [("cache invalidation on input change", H+"pcl/pcl_registration_impl.hpp setInput*/clear*/swap"), ("lazy covariance / voxelmap computation", H+"pcl/pcl_registration_impl.hpp computeTransformation")],
  [("target_voxelmap_, covs, trees", "derived data cached per cloud", H+"pcl/pcl_registration.hpp")], ["align results, getFitnessScore, getFinalTransformation"]))
L.append(P("C17", "One-call helpers do exactly what their settings say",
  "The one-call preprocessing and alignment functions give the result of the explicit pipeline (downsample, tree, normals and covariances, voxel map if required, registration of the requested type) run with exactly the given resolution, neighbour count, correspondence distance, tolerances, iteration limit, initial guess and thread count. Every setting reaches the stage it names, for every registration type and input element type; no stage uses more threads than given, and a VGICP request without a voxel map does not align.",
  ["configurations", "inputs"], "all registration types, element types and combinations of settings",
  "helper_test runs default settings for each type and checks pose accuracy; an ignored setting leaves it passing.",
  ["src/small_gicp/registration/registration_helper.cpp", H+"registration/registration_helper.hpp"],
  [("settings plumbing", "src/small_gicp/registration/registration_helper.cpp align, preprocess_points")], None, ["returned cloud, tree and RegistrationResult"]))
L.append(P("C18", "The Python interface is faithful to the C++ one",
  "Every Python entry point (sampling, normals and covariances, preprocessing, trees, voxel maps, factors, alignment) gives for numpy or PointCloud input the values that the equivalent C++ pipeline gives with the same arguments, whatever the memory layout, column count (3 or 4) and thread count. Keyword arguments act on the stage they name, and invalid shapes are refused.",
  ["inputs", "configurations"], "all array layouts and shapes, all keyword arguments, all overloads",
  "python_test.py covers single calls with contiguous arrays and default keywords and checks mostly shapes and pose accuracy.",
  ["src/python/align.cpp", "src/python/preprocess.cpp", "src/python/kdtree.cpp", "src/python/voxelmap.cpp", "src/python/pointcloud.cpp", "src/python/factors.cpp"],
  [("argument translation", "src/python/*.cpp")], None, ["return values of the module functions"]))
L.append(P("C19", "Estimated normals and covariances are well formed and backend independent",
  "For every cloud, each estimated normal is a unit vector along the direction of least spread of the point's k nearest neighbours and does not point away from the origin, and each covariance is symmetric with eigenvalue one in the tangent plane and 0.001 along that direction. A point with fewer than five neighbours gets a zero normal and an identity covariance; serial, OpenMP and TBB estimation agree for every schedule, and coordinates are never changed.",
  ["inputs", "schedules", "configurations"], "all clouds, neighbour counts, thread counts and schedules, with or without a caller-supplied tree",
  "normal_estimation_test checks one smooth cloud against a reference with a tolerance.",
  [H+"util/normal_estimation.hpp", H+"util/normal_estimation_omp.hpp", H+"util/normal_estimation_tbb.hpp"],
  [("eigen decomposition of the neighbour scatter", H+"util/normal_estimation.hpp estimate_local_features"), ("setters", H+"util/normal_estimation.hpp")], None, ["normals and covs of the cloud"]))
L.append(P("C20", "Projective search returns genuine neighbours of its window",
  "A projective search returns distinct indices of stored target points with true squared distances in ascending order, and no point recorded in an image cell of the search window around the query is closer than a returned one. The window wraps around horizontally and is clipped vertically, and a point that projects inside the image is recorded in the cell it projects to.",
  ["inputs", "configurations"], "all clouds, image sizes, window sizes, border modes, queries and k",
  "projective_search_test checks approximate recall on one cloud with one image size.",
  [H+"ann/projective_search.hpp", H+"ann/knn_result.hpp"],
  [("index map", H+"ann/projective_search.hpp constructor"), ("window scan with border mode", H+"ann/projective_search.hpp knn_search")], None, ["search outputs"]))
L.append(P("C21", "Degenerate inputs are handled without undefined behaviour",
  "Empty, single-point, all-identical and fewer-than-required-points inputs to searching, downsampling, estimation, voxel maps and registration return normally with the documented neutral result (nothing found, empty output, invalid-attribute markers, an unconverged-or-unchanged pose with zero inliers) and never read or write outside their data.",
  ["inputs", "configurations"], "all public operations on all inputs of degenerate size, with all thread counts and leaf sizes",
  "Tests cover empty input for the voxel filters and the KdTree constructor only.",
  [H+"ann/kdtree.hpp", H+"ann/incremental_voxelmap.hpp", H+"util/downsampling.hpp", H+"util/normal_estimation.hpp", H+"registration/registration.hpp"],
  [("empty checks", H+"ann/kdtree.hpp constructor/search"), ("size warnings", H+"registration/registration.hpp align")], None, ["return values", "process survives with memory checking on"]))
L.append(P("C22", "Alignment recovers a known rigid motion with every type and backend",
  "Aligning a structured cloud with a copy of itself moved by a known motion within the correspondence distance returns that motion up to the tolerances, as a proper rigid transform, for every factor type, reduction backend, optimizer, search structure and thread count. Backends differ only by rounding, and neither cloud is modified.",
  ["inputs", "configurations", "schedules"], "all factor types, backends, optimizers, target structures and small motions",
  "registration_test covers one recorded pair with loose tolerances and does not compare backends with each other.",
  [H+"registration/registration.hpp", H+"registration/optimizer.hpp", H+"registration/reduction_omp.hpp", H+"registration/reduction_tbb.hpp", H+"util/lie.hpp"],
  [("iterated linearize / solve / compose", H+"registration/optimizer.hpp"), ("exponential map", H+"util/lie.hpp")], None, ["RegistrationResult"]))
L.append(P("C23", "Concurrent read-only use gives every caller its sequential answer",
  "Any number of threads may at the same time search the same tree, voxel map or projective index, and align against the same target with the same registration object; each caller gets exactly what it would get alone, and nothing is written to the shared objects.",
  ["schedules"], "all interleavings of read-only operations on shared structures",
  "No test shares a structure between its own threads except through the library's internal loops.",
  [H+"ann/kdtree.hpp", H+"ann/incremental_voxelmap.hpp", H+"ann/projective_search.hpp", H+"registration/registration.hpp"],
  [("const, stateless search", H+"ann/*.hpp"), ("const align", H+"registration/registration.hpp")], None, ["search and align results per thread", "race reports"]))
L.append(P("C24", "Results do not depend on the point container",
  "The algorithms give the same result for the same coordinates whether they are held in the native cloud, an Eigen matrix, PCL clouds of any supported point type or a PCL proxy with external covariances, and writing points, normals or covariances through the container interface reads back the same values without disturbing the others. Fourth components always follow the documented convention.",
  ["inputs", "configurations"], "all supported containers and element types, all values",
  "points_test checks a handful of getters and setters on random values; no algorithm is run across containers.",
  [H+"points/point_cloud.hpp", H+"points/eigen.hpp", H+"pcl/pcl_point_traits.hpp", H+"pcl/pcl_proxy.hpp", H+"points/traits.hpp"],
  [("traits specialisations", H+"points/*.hpp, "+H+"pcl/*.hpp")], None, ["trait accessors", "algorithm outputs"]))
L.append(P("C25", "Point files are read back exactly",
  "Writing points and reading them back gives the same coordinates with a fourth component of one, and a binary float PLY file with three or more float vertex properties beginning with x, y, z yields exactly its vertices. Missing files, and files that declare other elements or property types, give an empty result.",
  ["inputs", "configurations"], "all point counts, property counts and values",
  "The tests only load the two bundled files, which have one fixed layout.",
  [H+"benchmark/read_points.hpp"], [("header parse + strided read", H+"benchmark/read_points.hpp read_ply")], None, ["returned points"]))
L.append(P("C26", "An alignment depends only on its inputs and the object's settings",
  "The result of an alignment is a function of the clouds, the search structure, the initial guess and the current settings of the registration object (factor, rejector, criteria, optimizer, general factor, reduction). Earlier alignments, settings that have been replaced, other objects and copies have no influence on it, aligning changes no setting, and it equals the optimizer run on factors made afresh from these settings.",
  ["histories", "configurations"], "all histories of setting, copying and aligning over several objects, all factor, reduction, general factor and optimizer types",
  "registration_test makes a new object for every alignment and never changes a setting between two.",
  [H+"registration/registration.hpp", H+"registration/optimizer.hpp", H+"factors/robust_kernel.hpp", H+"registration/reduction_omp.hpp"],
  [("factors made per call", H+"registration/registration.hpp align"), ("const optimize", H+"registration/optimizer.hpp")], None, ["RegistrationResult", "public settings after the call"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for d in L:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(L))
