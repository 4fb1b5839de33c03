"""Which steps decide which property."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/hrm/venv/bin/python"
HARNESS = {
    "h_algebra": dict(only=["Interval", "LineIntersection", "FreeSpace2D", "FreeSpace3D", "MultiBodyTree2D",
                            "MultiBodyTree3D", "SuperEllipse", "SuperQuadrics", "MeshGenerator", "ParseURDF",
                            "ExponentialFunction", "kdl_parser", "model", "InterpolateSE3"]),
    "h_geom": dict(only=["MultiBodyTree2D", "MultiBodyTree3D", "SuperEllipse", "SuperQuadrics", "MeshGenerator", "ParseURDF",
                         "ExponentialFunction", "kdl_parser", "model", "InterpolateSE3", "TightFitEllipsoid",
                         "EllipsoidSeparation", "EllipsoidSQCollisionFCL", "PointInPoly"]),
    "h_stub": dict(only=["MultiBodyTree2D", "MultiBodyTree3D", "SuperEllipse", "SuperQuadrics", "MeshGenerator", "ParseURDF",
                         "ExponentialFunction", "kdl_parser", "model", "DistanceMetric", "LineIntersection", "Interval"]),
    "h_plan2": dict(only=None),
    "h_plan3": dict(only=None),
    "h_ompl": dict(only=None),
    "h_io": dict(only=None),
    "h_kc": dict(only=None),
}
PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, **kw):
    def deco(f):
        PROPS[pid] = dict(run=f, **kw)
        return f
    return deco


@prop("A01",
      technique="TLA+/TLC: model checking of the merging algorithm over all small interval lists; spec-generated and random lists replayed into the real code, results checked by TLC against the point sets",
      note="exhaustive over lists of up to 3-4 intervals on a small lattice (all touching/nested/duplicate patterns), random real-valued lists beyond; trusts the harness to copy values")
def a01(run):
    run.mc("IntervalMerge")
    cases = run.gen("IntervalCases")
    tr = run.harness("h_algebra", "intervals", [cases])
    run.trace("IntervalTrace", tr)


@prop("A03",
      technique="TLA+/TLC: lattice polygons and polyhedra generated by TLC, real line intersections checked by TLC against the section computed in the specification",
      note="all convex lattice polygons with 3-4 (5) vertices and catalogued polyhedra with every alignment of lines, sampled superquadric meshes; meshes judged up to 1e-6 of their size")
def a03(run):
    cases = run.gen("LineCases")
    tr = run.harness("h_algebra", "lines", [cases])
    run.trace("LineTrace", tr)


@prop("A04",
      technique="TLA+/TLC: lattice polygons generated by TLC with all lattice segments, real crossing decisions checked by TLC by clipping",
      note="exhaustive over lattice segments against all lattice polygons (quick: a seed-dependent fifth), random sampled boundaries")
def a04(run):
    cases = run.gen("LineCases")
    tr = run.harness("h_algebra", "segments", [cases])
    run.trace("CrossTrace", tr)
    run.trace("CrossTrace", run.harness("h_plan2", "moves"))
    run.trace("CrossTrace", run.harness("h_plan3", "moves"))


@prop("A02",
      technique="TLA+/TLC: sweep-line specification; lattice scenes generated by TLC and random scenes replayed through the real free-space computation, results checked by TLC cell by cell",
      note="exhaustive over catalogued lattice scenes (obstacle subsets x arenas x limits), random boundaries in 2D/3D; cells narrower than the stated tolerance are not judged")
def a02(run):
    cases = run.gen("FreeSegCases")
    tr = run.harness("h_algebra", "freeseg", [cases])
    run.trace("FreeSegTrace", tr)


@prop("B01",
      technique="TLA+/TLC: contact condition between convex shapes specified by support functions; every boundary point the real code computes is checked by TLC",
      note="random superelliptic/superquadric bodies, sizes, exponents, poses; contact to 1e-6 of the size; whole-boundary coverage by turning number (2D) and support (3D)")
def b01(run):
    run.mc("ShapesMC")
    tr = run.harness("h_geom", "mink")
    run.trace("MinkTrace", tr)


@prop("B02",
      technique="TLA+/TLC: containment specified by support functions; enclosing ellipsoids computed by the real code checked by TLC against every shape and rotation step they must enclose",
      note="random and degenerate pairs and motions (equal, nested, circular, half turns); containment to 1e-6 of the size")
def b02(run):
    run.mc("ShapesMC")
    tr = run.harness("h_geom", "enclose")
    run.trace("EncloseTrace", tr)


@prop("B03",
      technique="TLA+/TLC: surfaces specified by implicit functions, meshes by the parameter grid; sampled points and meshes of the real code checked by TLC",
      note="random shapes re-posed and re-sized on the same object; surface to 1e-6, coverage up to the grid step")
def b03(run):
    tr = run.harness("h_geom", "sampled")
    run.trace("SurfaceTrace", tr)


@prop("B04",
      technique="TLA+/TLC: state machine of a rigid robot model-checked; every operation history up to a length replayed into the real robot and checked by TLC with real poses",
      note="all histories of 3 (4) operations with 0, 1 and 3 links, random offsets and poses including half turns; poses to 1e-8")
def b04(run):
    run.mc("RigidRobot")
    cases = run.gen("RobotCases")
    tr = run.harness("h_geom", "rigid", [cases])
    run.trace("RobotTrace", tr)


@prop("B05",
      technique="TLA+/TLC: forward kinematics of description trees specified recursively; every small tree and joint-kind pattern generated by TLC is written as a robot file, executed by the real code and checked by TLC",
      note="all depth-first trees of up to 4 (5) bodies with joint-kind patterns, plus the repository's snake and tree robots; random origins, axes, joints, several configurations per robot object; poses to 1e-7")
def b05(run):
    cases = run.gen("UrdfCases")
    tr = run.harness("h_geom", "urdf", [cases])
    run.trace("UrdfTrace", tr)


@prop("B06",
      technique="TLA+/TLC: uniform motion specified by angles and fractions; interpolations computed by the real code checked by TLC",
      note="random, equal, opposite-sign, nearby and half-turn end orientations, 0-14 steps; angles to 1e-6")
def b06(run):
    tr = run.harness("h_geom", "interp")
    run.trace("InterpTrace", tr)


@prop("B07",
      technique="TLA+/TLC: separation of convex shapes specified by support functions; every separation and collision decision of the real code on shared, moved collision objects checked by TLC",
      note="random pairs from touching to far, size ratios up to 60, both orders, collision objects re-used over 8 poses; decisions within 1e-3 (ellipsoids), 1e-2 (meshes) of contact are not judged; planar bodies up to their coarse mesh (15%)")
def b07(run):
    run.mc("ShapesMC")
    tr = run.harness("h_geom", "sep")
    run.trace("SepTrace", tr)


@prop("D04",
      technique="TLA+/TLC: the life of a plan as a state machine, model-checked for order, growth and termination; histories of search outcomes and step costs generated by TLC drive the real planning loop and every recorded event is checked against the machine",
      note="all outcomes of up to 6 searches, 1-4 slices and time limits (zero, within the first round, within a refinement round, unlimited) as catalogued in PlannerCases; times to 1e-3 s")
def d04(run):
    run.mc("PlannerMC")
    cases = run.gen("PlannerCases")
    tr = run.harness("h_stub", "life", [cases], shards=8, timeout=120)
    run.trace("PlannerTrace", tr, chain=True, workers=1)


@prop("D01",
      technique="TLA+/TLC: shortest walks specified by relaxation and model-checked against all walks; every small graph generated by TLC is searched by the real planner and its answer checked by TLC, as are the answers of real plans",
      note="all undirected graphs of up to 4 vertices with lattice weights, self-loops, parallel edges and attachment sets as catalogued in GraphCases, growing ones too; random plans; costs to 1e-9 relative")
def d01(run):
    run.mc("GraphsMC")
    cases = run.gen("GraphCases")
    tr = run.harness("h_stub", "graphs", [cases])
    run.trace("SearchTrace", tr)
    run.trace("SearchTrace", run.harness("h_plan2", "found"))
    run.trace("SearchTrace", run.harness("h_plan3", "found"))


PLAN = "TLA+/TLC: the roadmap and its C-slices specified geometrically in the plane and in space; recorded plans of the real planners on random scenes checked by TLC, "


def plans(run, mode, shards=8):
    run.trace("Plan2Trace", run.harness("h_plan2", mode, shards=shards))
    run.trace("Plan3Trace", run.harness("h_plan3", mode, shards=shards))


@prop("C01", technique=PLAN + "every boundary point by the contact condition",
      note="random scenes (2D: superellipses; 3D: superquadrics), rigid, multi-body and articulated robots, all slices; contact to 1e-6 of the size; 3D boundaries: a fifth of the points, reach in all lattice directions up to the sampling step")
def c01(run):
    run.mc("ShapesMC")
    plans(run, "c01")


@prop("C02", technique=PLAN + "every vertex against the recorded boundaries and against the true bodies",
      note="random scenes with 0-3 obstacles, one or two arenas, limits inside and outside the arena, before and after refinement; vertices within 1e-6 of a boundary are not judged; bridge vertices against obstacles only")
def c02(run):
    plans(run, "c02")


@prop("C03", technique=PLAN + "every same-slice edge clipped against every C-obstacle",
      note="random and grazing scenes, before and after refinement, every edge; 3D chords shorter than 2e-3 are not judged")
def c03(run):
    plans(run, "c03")


@prop("C04", technique=PLAN + "every interpolated configuration of every cross-slice edge by exact separation",
      note="random scenes, rigid, multi-body, articulated and explicitly checked planners, every cross-slice edge at every interpolation step; tolerance: how far the sampled outline of the enclosing body's C-obstacle is inside the true one (computed per scene), 1e-2 of the size for explicit mesh checks")
def c04(run):
    plans(run, "c04")


@prop("C05", technique=PLAN + "ranges, weights, blocks and pairs of every roadmap",
      note="random scenes and planner variants, before and after up to 2 refinement rounds; weights to 1e-9")
def c05(run):
    plans(run, "c05")


@prop("C06", technique=PLAN + "every pair of adjacent vertices whose motion is clear must be joined",
      note="random scenes, all pairs of adjacent vertices; motions within 1e-4 (2D) or 1e-3 (3D) of a C-obstacle are not judged; between slices by clear ball motions")
def c06(run):
    plans(run, "c06")


@prop("C07", technique=PLAN + "slice numbers and headings",
      note="1-9 slices in the plane, predefined lists of 1-5 orientations and 1-4 random ones in space; headings to 1e-9, orientations exactly")
def c07(run):
    plans(run, "c07")


@prop("D02", technique=PLAN + "the look-up of every query specified declaratively",
      note="random roadmaps before and after refinement, start/goal queries and random ones at, near and far from vertices, 1-6 slices, several radii; ties within 1e-9 may go either way")
def d02(run):
    plans(run, "near")


@prop("D03", technique=PLAN + "paths against the reported vertex sequence and the straight interpolation in between",
      note="random solved and unsolved plans of all planner variants, and every catalogued small graph; configurations exactly, interpolation to 1e-6")
def d03(run):
    run.trace("SearchTrace", run.harness("h_plan2", "found"))
    run.trace("SearchTrace", run.harness("h_plan3", "found"))


@prop("D05", technique=PLAN + "appended blocks of every refinement round; the planning loop as a model-checked state machine",
      note="random scenes with 0-2 refinement rounds, all planner variants; vertices to 1e-6")
def d05(run):
    run.mc("PlannerMC")
    plans(run, "d05")


@prop("D06", technique="TLA+/TLC: the life of a growing plan as a state machine, model-checked for order, joins, growth and termination; recorded lives of the real articulated planner checked event by event, and its configurations, vertices and joins against the specification",
      note="random articulated robots and scenes, forced histories of 0-190 failed searches (through refinement at 60, 120, 180 slices) and real searches with time limits; randomness judged by distinctness, range and spread")
def d06(run):
    run.mc("ProbMC")
    run.trace("ProbTrace", run.harness("h_plan3", "prob", shards=8), chain=True)


@prop("D07", technique=PLAN + "complete results and inputs compared over interleavings of planners",
      note="random scenes, deterministic planner variants (2D, containment, 3D, explicit checks), other planners constructed and run in between; exact equality")
def d07(run):
    run.trace("Plan2Trace", run.harness("h_plan2", "repeat", shards=1))
    run.trace("Plan3Trace", run.harness("h_plan3", "repeat", shards=4))


@prop("E01", technique="TLA+/TLC: validity of a state specified by the separation of posed bodies, conversion by clamping and normalising; every decision and conversion of the real sampling-based planners' state space checked by TLC",
      note="random scenes and states in 2D, 3D and articulated, states near contact found by bisection, repeated in the opposite order; obstacles as meshed (15% in the plane, 1% of the size in space), ellipses to 1e-3")
def e01(run):
    tr = run.harness("h_ompl", "states", shards=8)
    run.trace("Ompl2Trace", tr)
    run.trace("Ompl3Trace", tr)


@prop("E02", technique="TLA+/TLC: the life of a planner asked several queries model-checked; query histories generated by TLC drive every real sampling-based planner and all reports are checked by TLC",
      note="all histories of 1-2 (3) queries, some of 3, with free and blocked ends, 7 algorithms x 5 samplers (articulated: 5); interpolated states up to the documented validity resolution; unsolved queries are never required to be solved")
def e02(run):
    run.mc("QueryMC")
    tr = run.harness("h_ompl", "queries", [run.gen("QueryCases")], shards=8)
    run.trace("Ompl2Trace", tr)
    run.trace("Ompl3Trace", tr)


@prop("E03", technique="TLA+/TLC: the work done for a query and its count specified and model-checked with the life of a planner; the figures every real sampling-based planner reports over query histories generated by TLC compared with counts taken from outside and checked by TLC",
      note="all query histories of E02, 7 algorithms x 5 samplers (articulated: 5), every motion counted by the harness's own motion validator; percentages within 0.12 of an estimate from 3000 states of the harness")
def e03(run):
    run.mc("QueryMC")
    tr = run.harness("h_ompl", "figures", [run.gen("QueryCases")], shards=8)
    run.trace("Ompl2Trace", tr)
    run.trace("Ompl3Trace", tr)


@prop("F01", technique="TLA+/TLC: files as sequences of records and what each record means specified; every small file shape generated by TLC, random scenes and all shipped setups loaded and converted by the real code and checked by TLC",
      note="all files of up to 2 (and some of 3-5) lines in 8 styles; numbers read in single precision (2e-7 relative), written with 6 digits; the output files are re-read independently of the repository")
def f01(run):
    run.trace("FilesTrace", run.harness("h_io", "files", [run.gen("FileCases")]))


@prop("F02", technique="TLA+/TLC: the derived limits and numbers specified arithmetically; derivations of the real code for random scenes and partial user choices checked by TLC",
      note="random arenas (off-centre, non-square), robots, 1-4 obstacles, every combination of given and missing numbers; to 1e-9; one pre-defined orientation up to six")
def f02(run):
    run.trace("FilesTrace", run.harness("h_io", "define"))


@prop("F03", technique="TLA+/TLC: stored files specified as the complete result; results stored by the real code, repeatedly under the same name, are re-read and checked by TLC",
      note="random results in 2D, 3D and articulated form, empty and unsolved ones, up to 300 vertices, large indices; boundaries and free segments of real 3D plans; six digits")
def f03(run):
    run.trace("FilesTrace", run.harness("h_io", "store"))


@prop("G01", technique="TLA+/TLC: membership in simplices by barycentric coordinates and the shape of containment connections specified; answers and roadmaps of the real code with given polyhedra checked by TLC",
      note="random unions of simplices and points in any proportion to them (1e-7 not judged); plans with allowed motions from none to all, 2-6 slices, unrefined; C-obstacles of the enlarged base")
def g01(run):
    run.trace("Plan2Trace", run.harness("h_plan2", "kc"))
    run.trace("KcTrace", run.harness("h_geom", "poly"))
    try:                       # reaches a private member of the planner by its name
        tr = run.harness("h_kc", "connect")
    except run.Broken as b:
        if "does not compile" not in str(b):
            raise
        run.log("the polyhedron of the planner cannot be set; its connections are not explored")
        return
    run.trace("KcTrace", tr)


@prop("G02", technique="TLA+/TLC: placement of robots by recursive forward kinematics and surfaces by their implicit equation specified; histories of the real Python tools checked by TLC",
      note="random rigid robots, random and shipped description files (bodies listed depth-first, joints about the axes), 1-3 transforms per robot, sampled surfaces of 5-12 samples per angle, loaded tables; to 1e-6")
def g02(run):
    tr = run.script([PY, os.path.join(HERE, "harness", "py_tools.py")], "tools")
    run.trace("ToolsTrace", tr)
