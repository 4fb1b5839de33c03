# Per property: (what is specified, in which modules; how the code is driven and against what oracle). Bounds come from props.py.
ROWS = {
"A01": ("`Intervals` (point sets of interval lists), `IntervalMerge` (the merging algorithm as a state machine, invariant: covered points are kept)",
        "TLC generates every list over a small lattice (`IntervalCases`), the harness adds random lists of 1-9 intervals at four scales; each answer is compared as a point set (`IntervalTrace`)"),
"A02": ("`FreeSeg`: the line cut into cells at every boundary end; a cell is free iff in all arenas, in no obstacle and within the limits; enhancement as membership of vertex coordinates, and a vertex on both of two neighbouring lines wherever segments of them overlap; a line that misses an arena has no segment at all",
        "lattice scenes from `FreeSegCases` and random 2D/3D scenes through `FreeSpace2D/3D`, cell by cell (`FreeSegTrace`)"),
"A03": ("`Convex`: sections of convex polygons and of closed triangle meshes by lines, computed by clipping",
        "all small lattice polygons with all alignments, catalogued polyhedra, sampled meshes (`LineTrace`)"),
"A04": ("`Convex`: a segment clipped to a polygon or mesh",
        "lattice segments against lattice polygons, and the planners' own transition tests on recorded C-obstacles in 2D and 3D, motions with one end inside included (`CrossTrace`)"),
"B01": ("`Shapes`: support functions, gap (separation distance along the best direction), contact condition",
        "boundaries of random pairs; every point must have gap 0, the point sequence must go round once, reach every direction (`MinkTrace`)"),
"B02": ("`Shapes`: containment of ellipsoids as comparison of support functions / eigenvalues",
        "enclosures of pairs and of rotations step by step (`EncloseTrace`)"),
"B03": ("`Shapes` implicit functions, `Curve` (once around, grids, cells)",
        "shapes re-posed and re-sized by large and by very small steps on one object, against the values that were *asked for*; the triangles of collision meshes must close the surface in every direction (`SurfaceTrace`)"),
"B04": ("`RigidRobot`: state machine of base, links, transforms, observations",
        "every operation history up to a bound is replayed with random real poses, bases created anywhere, transforms that repeat an orientation (`RobotTrace`)"),
"B05": ("`Kinematics`: recursive frames of a description tree",
        "all small depth-first trees x joint kinds from `UrdfCases`, written as files with random numbers; histories of joint vectors, rigid transforms in between (`UrdfTrace`)"),
"B06": ("`Poses`: constant-rate turns, linear parts", "random, equal, antipodal, half-turn ends (`InterpTrace`)"),
"B07": ("`Shapes`: gap of two convex bodies, of a body and a hull",
        "pairs from deep overlap to far apart with placements at corners and edges just before and after contact; shared collision objects (`SepTrace`)"),
"C01": ("`Roadmap` + `Plan2Trace`/`Plan3Trace`: boundaries per slice = contact positions of each body posed at the slice's orientation, arena from inside", "recorded plans of all planner variants, with bodies and obstacles of different sampling numbers; the meshes used for sweeping and motions must be the grid of exactly the boundary of their slice"),
"C02": ("vertices inside limits and arenas, outside C-obstacles, and bodies truly clear of obstacles", "recorded plans; vertices are judged against recorded boundaries and against the bodies themselves"),
"C03": ("edges within a slice clipped against every C-obstacle", "recorded plans, grazing scenes, refinement rounds"),
"C04": ("every interpolated configuration of an edge between slices is collision-free", "recorded plans of rigid, multi-body, articulated and explicit-check planners; small obstacles put on the way of single links"),
"C05": ("roadmap as a well-formed weighted graph with blocks of slices", "recorded plans of all variants with and without refinement"),
"C06": ("pairs of adjacent vertices with clear motion are joined; between slices the ball rule", "recorded plans, several neighbouring lines, detours over either line, long bodies whose enclosing body barely fits"),
"C07": ("headings/orientations of slices", "recorded plans with given lists, partial lists, random ones"),
"D01": ("`Graphs` (walks, relaxation), `GraphsMC` (relaxation = minimum over all walks)", "all small graphs from `GraphCases` put into the real planner (`h_stub`), and the graphs of real plans (`SearchTrace`)"),
"D02": ("`Roadmap`: the look-up as a set-valued rule", "recorded look-ups of queries (those the planner itself makes must use the requested number and radius) and random configurations before and after refinement"),
"D03": ("`SearchTrace`: path = start, vertices, goal; interpolation in between", "recorded plans, solved and unsolved, and small graphs"),
"D04": ("`Planner`/`PlannerMC`: life of a plan as a state machine (build, search, refine, stop), liveness `Ends`", "histories of outcomes and clock steps drive the real loop through its virtual steps; each event must be a transition (`PlannerTrace`)"),
"D05": ("`PlannerMC` (growth) and appended blocks per round", "recorded rounds of all planner variants; each new vertex must be joined to the first clearly free earlier one in order"),
"D06": ("`ProbPlanner`/`ProbMC`: slices, joins, searches, refinement at every 60 slices", "recorded lives of `ProbHRM3D` and its ablation, forced histories through three rounds of refinement, random joints near their limits"),
"D07": ("results are functions of robot, scene and request", "plans repeated, interleaved, and run in both orders in fresh processes; inputs compared before/after; what a planner reports of its inputs, after refinements, too"),
"E01": ("`Shapes`/`Kinematics`: a state is valid iff the posed bodies are separate", "random states, states at contact by bisection, at corners of obstacles of mixed kinds, all three planner classes (`Ompl2Trace`, `Ompl3Trace`)"),
"E02": ("`Query`/`QueryMC`: a planner asked several queries; `OmplAnswers`: what a report must satisfy", "histories from `QueryCases` with every algorithm and sampler; the reported lists are compared, both ways, with the exploration of the planner itself"),
"E03": ("`Query`/`QueryMC` (work done for a query), `OmplAnswers` (figures, and the planning time next to the one measured outside)", "histories from `QueryCases` with every algorithm and sampler, motions counted from outside"),
"F01": ("`FilesTrace`: files as sequences of records", "all small files from `FileCases` in eight styles, random scenes, all shipped setups"),
"F02": ("`FilesTrace`: limits and numbers as arithmetic", "random scenes and partial user choices through `defineParameters`"),
"F03": ("`FilesTrace`: stored = complete result", "random results and real plans stored and re-read independently"),
"G01": ("`KcTrace`: barycentric membership, shape of a containment connection", "random polyhedra and points; plans with given polyhedra, also such that motions mostly turn"),
"G02": ("`ToolsTrace` over `Kinematics`, `Shapes`", "the Python tools run with random robots, tables, transforms"),
}
