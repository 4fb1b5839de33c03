#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

HRM = "include/hrm/planners/HighwayRoadMap-inl.h"
p("A01", "Interval union, intersection and complement are exact",
  "For every list of closed intervals, the union covers exactly the points covered by some interval and comes back sorted and disjoint, and the intersection is the set of points common to all of them (no interval when there is none). The complement of sorted disjoint inner intervals in an outer interval covers exactly the outer points outside the interior of every inner interval.",
  ["inputs"], "all finite lists of closed intervals, including touching, nested, duplicate, single-point and empty lists",
  "No test calls the interval operations; planning tests meet only the few overlaps of one scene.",
  ["src/datastructure/Interval.cpp", "include/hrm/datastructure/Interval.h"],
  [("set operations", "Interval::unions / intersects / complements")])
p("A02", "Free segments on a sweep line are exactly the free part of the line",
  "On every sweep line, the reported free segments cover exactly the part of the line that is within the sweep limits, inside every arena boundary and outside the interior of every obstacle boundary, and every vertex coordinate generated on the line (midpoints and the extra points of enhancement) lies in such a segment. Where free segments of neighbouring lines overlap, each of the two lines has a vertex at which both are free. A line that misses an arena has no free segment; the midpoint of every free segment is always among the vertices, and coordinates are sorted along each line.",
  ["inputs"], "all sets of arena/obstacle boundaries, limits and sweep lines, in 2D and 3D, including overlapping, touching and absent obstacles and several arenas",
  "Tests only run complete plans on three scenes and look at whether a solution was found; wrong segments are never compared with the geometry.",
  ["include/hrm/datastructure/FreeSpace-inl.h", "src/datastructure/FreeSpace2D.cpp", "src/datastructure/FreeSpace3D.cpp"],
  [("interval construction", "FreeSpace2D/3D::computeIntersectionInterval"), ("free segments", "FreeSpaceComputator::computeSweepLineFreeSegment"), ("extra vertices", "FreeSpaceComputator::enhanceFreeSegment")])
p("A03", "Sweep lines meet a boundary at its exact entry and exit points",
  "The intersection of a line with a convex closed polygon (2D horizontal line) or closed triangle mesh (3D vertical line or general line) is empty when the line misses it and otherwise consists of exactly two points, the first and last common points along the line. This also holds when the line passes exactly through vertices, edges or poles.",
  ["inputs"], "all convex polygons/meshes and all sweep lines, including degenerate alignments with vertices and edges",
  "Tests never call the intersection routines directly and generic scenes do not produce exact vertex/edge alignments.",
  ["src/geometry/LineIntersection.cpp"],
  [("2D sweep", "intersectHorizontalLinePolygon2D"), ("3D sweep", "intersectVerticalLineMesh3D"), ("general line", "intersectLineMesh3D / intersectLineTriangle3D")])
p("A04", "A motion through a boundary is reported as crossing it, and only then",
  "A straight segment whose ends are outside a convex C-obstacle boundary and that passes through its interior is always reported as not free, in 2D and 3D, however it is aligned with vertices and edges of the boundary. So is a segment with one end outside and the other inside. A segment that has no point in common with the boundary is always reported as free of it.",
  ["inputs"], "all segments and convex boundary polygons/meshes, in either direction and including parallel, vertical, horizontal and vertex-aligned segments",
  "Tests only observe whether plans succeed; an undetected crossing yields a plan that looks successful but collides.",
  ["src/geometry/LineIntersection.cpp", "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp"],
  [("2D crossing", "isIntersectSegPolygon2D, HRM2D::isSameSliceTransitionFree"), ("3D crossing", "HRM3D::isSameSliceTransitionFree")])
p("B01", "Minkowski boundary points are configurations of exact contact",
  "Every point returned for the Minkowski sum of a convex superellipse/superquadric with an ellipse/ellipsoid is a centre position at which the ellipse touches the body from outside without overlapping it, and the points go once around the whole boundary. For the Minkowski difference with a sufficiently smooth arena, every point is a position at which the ellipse is inside the arena and touches it.",
  ["inputs"], "all semi-axes, convex exponents (0 < epsilon < 2), poses and sampling numbers",
  "The tests only check the number of sampled points and do not compare any of them with the geometry.",
  ["src/geometry/SuperEllipse.cpp", "src/geometry/SuperQuadrics.cpp"],
  [("closed-form sum", "SuperEllipse::getMinkSum2D, SuperQuadrics::getMinkSum3D")])
p("B02", "Enclosing ellipses and ellipsoids contain everything they must enclose",
  "The ellipse/ellipsoid computed to cover two concentric ellipses/ellipsoids contains both and touches at least one of them, and the one computed to cover a rotational motion contains the rotating body at every sampled step of that motion, from the first to the last orientation.",
  ["inputs"], "all semi-axes and all pairs of orientations, including equal, opposite and nearly equal ones and equal semi-axes; any number of steps",
  "The tests check one pair of bodies and only print the result or compare semi-axes of a single configuration.",
  ["src/geometry/TightFitEllipsoid.cpp"],
  [("two bodies", "getMVCE2D / getMVCE3D"), ("rotational motion", "getTFE2D / getTFE3D, HRM2D/HRM3D/ProbHRM3D::computeTFE")])
p("B03", "Sampled shapes and meshes lie on the surface they represent",
  "Every sampled boundary point of a superellipse/superquadric lies on its surface at its current pose, and the points sweep the whole surface. The triangle mesh made from a sampled parametric surface covers every cell of the parameter grid exactly once with consistently shared edges, and the collision mesh of a body has its vertices on the body's surface, valid indices and no hole through which one could look inside.",
  ["inputs"], "all semi-axes, exponents, poses and sampling numbers",
  "The tests compare only the number of points with the requested number.",
  ["src/geometry/SuperEllipse.cpp", "src/geometry/SuperQuadrics.cpp", "src/geometry/MeshGenerator.cpp", "src/util/ExponentialFunction.cpp"],
  [("sampling", "getOriginShape"), ("meshes", "getMeshFromParamSurface, getMesh, getMeshFromSQ")])
p("B04", "Bodies of a rigid robot move together with its base",
  "After any sequence of robot transforms, the base has exactly the pose of the last transform and every link has the pose of that transform composed with the link's own offset from the base, independent of earlier transforms. Links keep shape, number and order. The boundaries of each body are those of its pose relative to the base, wherever the robot is, and computing them never changes the robot.",
  ["histories", "inputs"], "all sequences of transforms and all robots with any number of links, in 2D and 3D",
  "No test inspects link poses, and none applies a sequence of transforms.",
  ["src/datastructure/MultiBodyTree2D.cpp", "src/datastructure/MultiBodyTree3D.cpp", "include/hrm/datastructure/MultiBodyTree.h"],
  [("transform", "MultiBodyTree2D/3D::robotTF"), ("links", "addBody, getBodyShapes")])
p("B05", "Articulated robots follow the forward kinematics of their description",
  "For every base pose and every joint vector, each body of an articulated robot is placed at base pose composed with the forward kinematics of the robot description file for that body composed with the body's own offset, joints taken in the order of the description. Earlier configurations have no influence.",
  ["inputs", "histories"], "all joint vectors and base poses for every robot description (serial and tree-shaped)",
  "Tests run planners on the snake robot but never check where its links are.",
  ["src/util/ParseURDF.cpp", "src/datastructure/MultiBodyTree3D.cpp"],
  [("FK", "ParseURDF::getTransform"), ("placement", "MultiBodyTree3D::robotTF(urdf/kdl, base, joints)")])
p("B06", "Interpolated motions are uniform and hit both end poses",
  "Interpolating between two configurations with n steps returns n+1 configurations that start and end at the given ones, with positions and joints linear in the step, and with unit-quaternion orientations turning at constant rate along the shortest rotation. With zero steps both ends are returned.",
  ["inputs"], "all pairs of SE(3) or SE(3)xR^n configurations (including equal and antipodal quaternions) and all step numbers",
  "No test calls the interpolation; plans only use it indirectly.",
  ["src/util/InterpolateSE3.cpp"],
  [("interpolation", "interpolateSE3, interpolateCompoundSE3Rn, interpolateSlerp, interpolateAngleAxis, interpolateRn")])
p("B07", "Separation and collision tests agree with the geometry",
  "Two ellipses or two ellipsoids are reported separated exactly when they have no common point, and the collision test between an ellipse/ellipsoid and a superelliptic/superquadric body reports a collision exactly when they overlap, beyond the tolerance of the body's mesh. The answer does not depend on the order of the bodies or on poses used earlier with the same collision objects.",
  ["inputs", "histories"], "all sizes and poses, away from exact tangency and mesh resolution; including containment and distant bodies",
  "The tests do not call these predicates; sampling planners only show that some path was found.",
  ["src/util/EllipsoidSeparation.cpp", "src/util/EllipsoidSQCollisionFCL.cpp"],
  [("algebraic test", "isEllipseSeparated / isEllipsoidSeparated"), ("mesh test", "isCollision, setCollisionObjectFromSQ")])
p("C01", "Each C-slice has the C-space boundaries of the robot at its orientation",
  "After planning, the recorded boundaries of every C-slice are, for each arena part, each obstacle and each robot body, positions of the robot base at which that body - with the robot posed at the orientation (and joint angles) of this slice - touches the arena part from inside or the obstacle from outside. In space every boundary is held as the mesh joining the neighbouring points of its grid.",
  ["inputs", "configurations"], "all robots (single and multi-body), scenes and orientation sets; every slice of the roadmap, after refinement too",
  "Tests never look at the boundaries; planning in a sparse scene succeeds even with boundaries of a wrong orientation.",
  ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/HRM2DKC.cpp", "include/hrm/datastructure/FreeSpace-inl.h", "src/datastructure/MultiBodyTree2D.cpp", "src/datastructure/MultiBodyTree3D.cpp"],
  [("slice construction", "HRM2D/HRM3D::constructOneSlice"), ("boundaries", "FreeSpaceComputator::computeCSpaceBoundary, MultiBodyTree2D/3D::minkSum")])
p("C02", "Roadmap vertices are collision-free configurations within the limits",
  "Every roadmap vertex produced by a sweep line has its position within the planning limits and inside the C-space boundary of every arena part, and at that configuration no robot body overlaps an obstacle beyond the resolution of the sampled boundaries. The orientation and joint angles of each vertex are those of the slice that produced it.",
  ["inputs", "configurations"], "all scenes, robots, line numbers and slice sets; all vertices of all planner variants including refinement rounds",
  "Tests check that vertices exist, never that they are valid.",
  ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp", HRM],
  [("vertices", "generateVertices, bridgeVertex")])
p("C03", "Roadmap edges within a C-slice are collision-free motions",
  "For every roadmap edge between two vertices of the same C-slice, translating the robot straight from one to the other never takes it through the interior of a C-obstacle of that slice. This includes edges along one sweep line, between adjacent lines and planes, through bridge vertices, and to vertices of earlier rounds in refinement.",
  ["inputs", "configurations"], "all scenes and robots; all same-slice edges of all planner variants and refinement rounds",
  "Tests only look at whether the plan is solved; they never re-check an edge.",
  [HRM, "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp"],
  [("validation", "isSameSliceTransitionFree"), ("connection", "connectOneSlice2D, connectOneSlice3D, connectExistSlice, bridgeVertex")])
p("C04", "Roadmap edges between C-slices are collision-free at every checked step",
  "For every roadmap edge joining vertices of different C-slices, no robot body overlaps an obstacle, beyond the resolution of the sampled boundaries, at any of the interpolated configurations of the motion - position linear, orientation along the shortest rotation (linear in 2D), joints linear - including both ends. This holds for the bridge-slice planners and for the planner variant that checks collisions explicitly.",
  ["inputs", "configurations"], "all scenes and robots (multi-body, articulated), all pairs of slices; all planner variants except kinematics of containment",
  "Tests do not re-check any cross-slice edge.",
  ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp", "include/hrm/planners/HRM3DAblation-inl.h"],
  [("validation", "isMultiSliceTransitionFree, isPtInCFree"), ("bridge slices", "computeTFE, bridgeSlice"), ("connection", "connectMultiSlice")])
p("C05", "The roadmap is a well-formed weighted graph",
  "In every planning result the edges refer to existing vertices, there is exactly one weight per edge, and each weight is the Euclidean distance between the two vertices it joins. Vertices of each C-slice form one contiguous block, edges join only vertices of the same slice or of slices that were paired for connection, and all vertices have the same number of coordinates.",
  ["inputs", "configurations", "histories"], "all scenes, robots and planner variants, before and after refinement",
  "Tests assert only that the lists have a non-negative size, which is always true.",
  [HRM, "src/planners/HRM2D.cpp", "src/planners/HRM2DKC.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp", "src/util/DistanceMetric.cpp"],
  [("edges and weights", "connectOneSlice2D/3D, connectMultiSlice, connectExistSlice, bridgeVertex"), ("bookkeeping", "vertexIdx_, numVertex_")])
p("C06", "Connections that are clearly free are made",
  "Within a C-slice, two vertices of adjacent sweep lines (same line number in adjacent sweep planes in 3D), or two neighbouring vertices of one free segment, are joined by an edge whenever the straight motion between them stays clear of every C-obstacle; in 3D, two vertices of adjacent lines that are not joined directly are joined through a vertex at the height of the one on the line of the other whenever this detour is clear. Going through the vertices of a C-slice in order, each one is joined to a vertex of the paired slice whenever some neighbouring vertex of it there, not before the one joined last, admits a motion on which a ball of twice its size around each robot body stays clear of all obstacles.",
  ["inputs", "configurations"], "all scenes and robots, all slices, all planner variants with bridge slices",
  "A lost connection merely makes some other scene unsolvable or its path longer; the tests' scenes are solved anyway.",
  [HRM, "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"],
  [("in-slice", "connectOneSlice2D, connectOneSlice3D"), ("between slices", "connectMultiSlice")])
p("C07", "Orientation samples define the C-slices as requested",
  "A 2D plan has exactly the requested number of C-slices, with headings evenly spaced from -pi to pi (a single slice at -pi). A 3D plan uses the robot's predefined orientation list in its order when there is one, and otherwise the requested number of unit, pairwise different random orientations.",
  ["inputs", "configurations"], "all slice numbers from one up and all predefined orientation lists",
  "Tests use one slice number per planner and do not look at the orientations.",
  ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp"],
  [("sampling", "HRM2D::sampleOrientations, HRM3D::sampleSO3")])
p("D01", "Graph search reports a shortest walk exactly when one exists",
  "A plan is reported solved exactly when some attached start vertex and some attached goal vertex are connected in the roadmap. The reported vertex sequence is then a walk along roadmap edges from an attached start vertex to an attached goal vertex, its reported cost is the sum of its edge weights, and no walk between the same two vertices is shorter.",
  ["inputs", "histories"], "all roadmaps (disconnected, with parallel edges, self-loops, start = goal) and all attachment sets; repeated searches on a growing roadmap",
  "Tests check only that the cost is non-negative.",
  [HRM], [("search", "HighwayRoadMap::search (A*)")])
p("D02", "Start and goal are attached to the closest vertices of nearby slices",
  "A query configuration is attached only to existing roadmap vertices, none for an empty roadmap: at most the requested number of C-slices within the search radius of the slice closest in orientation are considered, in slice order, and each contributes its vertex closest to the query provided it lies within the search range of the query in sweep-line gaps; no considered slice having such a vertex is left out. The planner attaches start and goal with the number and radius of the request. Planar headings are compared as plain numbers between -pi and pi.",
  ["inputs", "configurations"], "all roadmaps, queries, neighbour numbers and radii, including slices without vertices",
  "Tests use one query per scene and never see which vertices were chosen.",
  ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp"],
  [("neighbours", "getNearestNeighborsOnGraph")])
p("D03", "The solution path runs from start to goal through the reported vertices",
  "When a plan is solved, the solution path is the start configuration, then the configurations of the reported vertex sequence in order, then the goal configuration. The interpolated path contains every one of these configurations in order, begins at the start, ends at the goal, and in 3D adds only configurations on the straight interpolation between consecutive ones; when no solution exists both paths and the vertex sequence are empty.",
  ["inputs", "configurations"], "all solved and unsolved queries of all planner variants, any interpolation number",
  "Tests compare nothing in the path, not even its ends.",
  [HRM, "src/planners/HRM3D.cpp"],
  [("path", "getSolutionPath, getInterpolatedSolutionPath")])
p("D04", "Planning stops when solved or when the time is used up",
  "A plan constructs each requested C-slice once in order, connects slices, searches, and then refines only while it is unsolved and time remains; it ends as soon as a search succeeds, and otherwise starts no new slice once the accumulated planning time exceeds the limit. At every moment the reported total time is the sum of the reported build and search times, none of which is negative, and these account for all construction and searching so far, once.",
  ["schedules", "inputs", "histories"], "all outcomes of every search and all time limits (zero, shorter than the first round, in the middle of a refinement round)",
  "Test scenes are solved in the first search, so refinement and time-out never run.",
  [HRM], [("life-cycle", "plan, buildRoadmap, refineExistRoadmap")])
p("D05", "Refinement only adds finer vertices and edges to the roadmap",
  "Each refinement round doubles the number of sweep lines, sweeps the same C-slices in the same order with the same orientations and boundaries, and appends vertices lying on the finer lines. Existing vertices, edges and weights are never changed or removed, and new vertices are joined to earlier ones of the same slice only, each - going through them in order - to some vertex of the round before whenever a clearly free motion to a line at most one and a half line distances away leads to one that is not before the one joined last.",
  ["histories", "inputs"], "all numbers of refinement rounds, all scenes and planner variants",
  "No test triggers refinement.",
  [HRM, "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"],
  [("refinement", "refineExistRoadmap, constructOneSlice, connectExistSlice")])
p("D06", "The articulated planner grows its roadmap one random slice at a time",
  "The articulated-robot planner takes the start configuration's orientation and joints for its first C-slice and the goal's for its second, then adds slices with fresh random orientations and joint angles within the joint range, keeping one configuration per slice. After each slice it connects it to the earlier slice closest in configuration and searches, and every vertex carries the orientation and joint angles of its own slice. It stops as soon as a search succeeds, and grows or refines the roadmap only while it is unsolved and time remains. Its reported times account for all construction and searching.",
  ["histories", "inputs"], "all random choices, all robots and scenes, any number of slices",
  "The one test is solved after a few slices and looks only at the solved flag.",
  ["src/planners/ProbHRM3D.cpp"],
  [("growth", "ProbHRM3D::plan, sampleOrientations, connectMultiSlice, generateVertices")])
p("D07", "Planning is repeatable and does not change its inputs",
  "Two planners created with the same robot, scene and request - with headings or predefined orientations - produce identical roadmaps, paths and costs, whatever other planners were run before or in between. The caller's robot, scene and request are left unchanged. A planner reports the query, scene and parameters it was given, with the scan-line numbers of its last refinement, and one C-space boundary per slice.",
  ["histories", "inputs"], "all scenes and deterministic planner variants; any interleaving of constructions and plans of independent planners",
  "Tests create one planner per process and never compare two results.",
  ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", HRM],
  [("ownership", "planners copy robot, arena, obstacles and request")])
p("E01", "Sampling-planner states are valid exactly when the robot is collision-free",
  "A state handed to a sampling-based planner is accepted exactly when no body of the robot, placed at that state, overlaps an obstacle, beyond the resolution of the obstacle meshes. Converting a configuration to a planner state and back gives the same configuration, with angles normalised and coordinates kept within the state-space limits, and joint limits of plus or minus a quarter turn.",
  ["inputs"], "all states, robots (single, multi-body, articulated) and scenes in 2D and 3D",
  "Tests only check that some planner finds a path.",
  ["src/planners/ompl_interface/OMPL2D.cpp", "src/planners/ompl_interface/OMPL3D.cpp", "src/planners/ompl_interface/OMPL3DArticulated.cpp", "include/hrm/planners/ompl_interface/OMPLInterface-inl.h"],
  [("validity", "isStateValid, transformRobot, isSeparated"), ("conversion", "setStateFromVector / setVectorFromState, setStateSpace")])
p("E02", "Sampling-planner results describe the solution of the current query",
  "A sampling-based query counts as solved only when a path to its goal was found within the time limit; then the reported path starts at the query's start, ends at its goal and consists of valid states, the interpolated path follows it with the same ends in small steps (at least fifty poses, also for the shortest paths), and the reported numbers of vertices and edges match the reported lists, which are those of the planner's exploration. When a query is not solved no path is reported, also after an earlier query on the same planner was solved.",
  ["inputs", "histories", "schedules"], "all planners and samplers, queries and sequences of queries on one planner object",
  "Tests run one query per planner object and only look at the solved flag.",
  ["include/hrm/planners/ompl_interface/OMPLInterface-inl.h", "src/planners/ompl_interface/OMPL2D.cpp", "src/planners/ompl_interface/OMPL3D.cpp"],
  [("results", "plan, getSolution")])
p("E03", "Sampling planners use what was requested and report the figures of the query",
  "A sampling-based planner uses the algorithm and the valid-state sampler it was set up with, also when it was set up before with others. After every query the reported path length is the number of poses of the reported path (zero when there is none), the reported planning time and numbers of checked motions and of valid ones are those of this query alone, and the reported share of valid states is the share of the whole state space, within sampling error.",
  ["inputs", "histories", "configurations"], "all planners and samplers, sequences of setups and queries on one planner object",
  "Tests print some of these figures and compare none.",
  ["include/hrm/planners/ompl_interface/OMPLInterface-inl.h", "src/planners/ompl_interface/OMPL2D.cpp", "src/planners/ompl_interface/OMPL3D.cpp"],
  [("choice", "setup, setPlanner, setValidStateSampler"), ("figures", "plan, getSolution")])
p("F01", "Scene and robot files are loaded as written",
  "Loading a comma-separated scene, robot or end-point file yields one record per non-comment line with its numbers in order, and each body gets the size, exponents, position and orientation of its record, the first robot record being the base and the others its links in order. Converting a planning setup to configuration files turns axis-angle orientations into the equivalent unit quaternions and keeps every other number of the robot's configuration (all joints of an articulated robot), to the written precision. Numbers are read in single precision.",
  ["inputs"], "all well-formed files, all environments and robots shipped with the planner, in 2D and 3D",
  "Tests load three of the shipped setups and do not compare the loaded values.",
  ["src/util/Parse2dCsvFile.cpp", "src/test/util/ParsePlanningSettings.cpp", "include/hrm/test/util/ParsePlanningSettings.h"],
  [("parsing", "parse2DCsvFile"), ("conversion", "parsePlanningConfig, parseGeometricModel, parseStartGoalConfig"), ("loading", "loadVectorGeometry, loadRobotMultiBody2D/3D, loadPreDefinedQuaternions")])
p("F02", "Derived planning limits and line numbers follow the scene",
  "The derived planning limits are centred on the first arena and leave a margin of 1.5 times (in 3D 1.2 times) the first semi-axis of the robot's base on every side, on every axis. Line numbers given by the user are kept; missing (zero) ones are the half-width of the limits on that axis divided by the smallest obstacle semi-axis, rounded down (2D: only the y direction is used). In 3D the slice number is the number of predefined orientations when there are any; otherwise, and in 2D, it stays as requested. All other parameters stay as requested.",
  ["inputs", "configurations"], "all arenas (off-centre and non-square), robots and obstacle sets",
  "Tests use one derived setting per planner and do not look at it.",
  ["src/test/util/ParsePlanningSettings.cpp", "include/hrm/test/util/ParsePlanningSettings.h"],
  [("parameters", "defineParameters, computeObstacleMinSize")])
p("F03", "Stored planning results contain the complete result",
  "Storing a planning result writes every roadmap vertex and edge, the reported vertex sequence, and every configuration of the solution and interpolated paths, in order and to the written precision (six digits), and for a 3D roadmap the boundaries of all bodies, those of the first C-slice's C-obstacles and C-arenas and every free segment of its sweep lines, so that reading the files back gives the same roadmap and paths.",
  ["inputs"], "all planning results (empty, unsolved, 2D, 3D, articulated)",
  "Tests write files only when asked interactively and never read them back.",
  ["src/test/util/DisplayPlanningData.cpp", "include/hrm/test/util/DisplayPlanningData-inl.h"],
  [("storage", "storeGraphInfo, storePathInfo, storeRoutines")])
p("G01", "Containment-based connections pass through a jointly reachable configuration",
  "A point is reported inside a polyhedron exactly when it lies in one of its simplices. Every connection between neighbouring C-slices made by the kinematics-of-containment planner goes through one new vertex whose offsets from both joined vertices lie in the polyhedron of allowed motions; a vertex is joined to the next C-slice whenever every configuration between it and some vertex there is allowed from both; and the C-obstacles of that planner are those of the robot enlarged by the inflation factor.",
  ["inputs", "schedules"], "all polyhedra, points, roadmaps and random draws",
  "The only test leaves the polyhedron empty, so no connection is ever made.",
  ["src/planners/HRM2DKC.cpp", "src/geometry/PointInPoly.cpp"],
  [("containment", "isPtInPoly"), ("connection", "HRM2DKC::addMiddleVertex, connectMultiSlice")])
p("G02", "The Python robot model places and samples bodies like the planner",
  "In the Python tools, transforming a robot places its base at the given pose and each link at that pose composed with the link's offset (and with the forward kinematics of the description file for articulated robots), whatever transforms came before, and sampled surface points of a body lie on its surface at its pose and reach around it. Loading a planning scene or stored results yields the tables as they are in the files, the interpolated path being preferred.",
  ["inputs", "histories"], "all robots, poses, joint values and sequences of transforms",
  "The two Python tests only check that nothing raises.",
  ["demo/python/MultiBodyTree.py", "demo/python/SuperQuadrics.py", "demo/python/robot_generator.py", "demo/python/result_loader.py"],
  [("placement", "MultiBodyTree.transform"), ("sampling", "SuperQuadrics.get_points, get_surf"), ("loading", "result_loader.load_planning_scene, load_results")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
