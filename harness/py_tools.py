# Python tools of the repository: placement and sampling of bodies, loading of scenes and results.
import json, math, os, random, sys
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
import warnings
warnings.filterwarnings("ignore")
REPO = os.environ.get("HRM_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "demo", "python"))
try:
    import numpy as np
    import roboticstoolbox as rtb
    from spatialmath import SE3, UnitQuaternion
except ImportError as e:
    print(e)
    sys.exit(3)
from MultiBodyTree import MultiBodyTree
from SuperQuadrics import SuperQuadrics
from robot_generator import generate_robot
from result_loader import load_planning_scene, load_results

out = open(sys.argv[1], "w")
rng = random.Random(1000003 * int(os.environ.get("VERIF_SEED", "1")) + 77)
T = os.environ.get("VERIF_TIER", "quick") == "thorough"
scratch = os.environ.get("SCRATCH", ".")
U = rng.uniform


def put(k, **kw):
    out.write(json.dumps(dict(k=k, **kw)) + "\n")


def F(a):
    return [float(x) for x in np.asarray(a, dtype=float).ravel()]


def quat():
    while True:
        q = [rng.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n > 1e-3:
            return [x / n for x in q]


def mat2q(m):
    """unit quaternion of a rotation matrix, independent of the toolbox"""
    c = [[m[0][0] + m[1][1] + m[2][2], m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]],
         [m[2][1] - m[1][2], m[0][0] - m[1][1] - m[2][2], m[0][1] + m[1][0], m[0][2] + m[2][0]],
         [m[0][2] - m[2][0], m[0][1] + m[1][0], m[1][1] - m[0][0] - m[2][2], m[1][2] + m[2][1]],
         [m[1][0] - m[0][1], m[0][2] + m[2][0], m[1][2] + m[2][1], m[2][2] - m[0][0] - m[1][1]]]
    k = max(range(4), key=lambda i: c[i][i])
    v = [c[k][j] for j in range(4)]
    v[k] += 1
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def shape(s):
    A = np.asarray(s.pose.A, dtype=float)
    return F(s.a) + F(s.eps) + F(A[0:3, 3]) + F(mat2q(A[0:3, 0:3].tolist()))


def row():
    return [U(0.3, 5), U(0.3, 5), U(0.3, 5), U(0.2, 1.8), U(0.2, 1.8), U(-9, 9), U(-9, 9), U(-9, 9)] + quat()


def pose():
    return [U(-20, 20), U(-20, 20), U(-20, 20)] + quat()


def se3(p):
    w, x, y, z = p[3:7]
    m = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), p[0]],
                  [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), p[1]],
                  [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y), p[2]],
                  [0, 0, 0, 1]])
    return SE3(m, check=False)


def drive(robot, rows, joints, steps):
    """a history of transforms"""
    poses, q, seen = [], [], []
    nj = sum(1 for j in joints if j["q"])
    for _ in range(steps):
        p = pose()
        v = [U(-1.6, 1.6) for _ in range(nj)]
        if joints:
            robot.transform(se3(p), v if rng.random() < 0.5 else np.array(v))
        else:
            robot.transform(se3(p))
        poses.append(p)
        q.append(v)
        seen.append([shape(robot.base)] + [shape(l) for l in robot.link])
    put("tool", rows=rows, joints=joints, poses=poses, q=q, seen=seen)


def rigid():
    for t in range(300 if T else 60):
        rows = [row() for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.7:
            robot, _ = generate_robot(np.array(rows))
        else:
            b = [SuperQuadrics(r[0:3], r[3:5], r[5:8], r[8:12], 6) for r in rows]
            robot = MultiBodyTree(b[0], len(rows) - 1)
            order = list(range(len(rows) - 1))
            rng.shuffle(order)
            for k in order:
                robot.add_body(b[k + 1], k)
        drive(robot, rows, [], rng.randint(1, 3))


def urdf(n, chains):
    """bodies in depth-first order; joints about the axes"""
    js, xml = [], '<?xml version="1.0"?>\n<robot name="r">\n<link name="base"/>\n'
    for b in range(1, n + 1):
        parent = b - 1 if not chains or rng.random() < 0.6 else 0
        pos, rpy, ax = [U(-2, 2) for _ in range(3)], [U(-3, 3), U(-1.4, 1.4), U(-3, 3)], [0, 0, 0]
        ax[rng.randrange(3)] = 1
        xml += '<link name="body%d"/>\n<joint name="j%d" type="revolute"><parent link="%s"/><child link="body%d"/>' \
               '<origin xyz="%r %r %r" rpy="%r %r %r"/><axis xyz="%d %d %d"/>' \
               '<limit lower="-4" upper="4" effort="1" velocity="1"/></joint>\n' % (
                   (b, b, "body%d" % parent if parent else "base", b) + tuple(pos) + tuple(rpy) + tuple(ax))
        js.append(dict(parent=parent, pos=pos, rpy=rpy, axis=ax, type="revolute", q=b))
    f = os.path.join(scratch, "u%d.urdf" % rng.randrange(10 ** 9))
    open(f, "w").write(xml + "</robot>\n")
    return f, js


def shipped(name):
    import xml.etree.ElementTree as ET
    f = os.path.join(REPO, "resources", "3D", "urdf", name + ".urdf")
    names, js = {"base": 0}, []
    for j in ET.parse(f).getroot().findall("joint"):
        o, a = j.find("origin"), j.find("axis")
        num = lambda e, k: [float(x) for x in e.get(k).split()] if e is not None and e.get(k) else [0.0] * 3
        child = j.find("child").get("link")
        names[child] = len(js) + 1
        assert child == "body%d" % (len(js) + 1)
        js.append(dict(parent=names[j.find("parent").get("link")], pos=num(o, "xyz"), rpy=num(o, "rpy"), axis=num(a, "xyz"),
                       type="revolute", q=len(js) + 1))
    return f, js


def moving():
    for t in range(60 if T else 14):
        f, js = urdf(rng.randint(1, 4), t % 2 == 1) if t % 4 else shipped(["snake", "tree"][(t // 4) % 2])
        rows = [row() for _ in range(len(js) + 1)]
        robot, _ = generate_robot(np.array(rows), f)
        drive(robot, rows, js, rng.randint(1, 3))


def surface():
    for t in range(200 if T else 40):
        r = row()
        n = rng.randint(5, 12)
        s = SuperQuadrics(r[0:3], r[3:5], r[5:8], r[8:12], n)
        if t % 2:
            s.pose = se3(pose())
        p = s.get_points()
        x, y, z = s.get_surf()
        put("sample", body=shape(s), row=r, moved=bool(t % 2), n=n, pts=[F(c) for c in np.asarray(p).T],
            surf=[F(c) for c in np.stack([np.ravel(x), np.ravel(y), np.ravel(z)], 1)])


def table(f, rows, sep=",", tail=""):
    with open(f, "w") as w:
        for r in rows:
            w.write(sep.join("%.9g" % x for x in r) + tail + "\n")


def files():
    def rect(n, m):
        return [[U(-50, 50) for _ in range(m)] for _ in range(n)]
    for t in range(80 if T else 16):
        d = os.path.join(scratch, "f%d" % t) + "/"
        os.makedirs(d, exist_ok=True)
        scene = dict(robot=rect(rng.randint(1, 4), 12), arena=rect(rng.randint(1, 2), 12), obstacle=rect(rng.randint(1, 5), 12),
                     ends=rect(2, rng.choice([7, 10, 16])))
        table(d + "robot_config_3D.csv", scene["robot"])
        table(d + "arena_config_3D.csv", scene["arena"])
        table(d + "obstacle_config_3D.csv", scene["obstacle"])
        table(d + "end_points_3D.csv", scene["ends"])
        got = load_planning_scene("3D", d)
        want = [scene["robot"], scene["arena"], scene["obstacle"], scene["ends"]]
        put("tables", want=want, got=[[F(r) for r in g] for g in got])
        # results, as the planner writes them
        n = rng.choice([7, 10])
        origin, mink, seg, vtx, edge, path, sol = rect(3, 9), rect(6, 9), rect(rng.randint(1, 6), 5), rect(rng.randint(1, 9), n), \
            [[float(rng.randrange(99)), float(rng.randrange(99))] for _ in range(rng.randint(1, 9))], rect(rng.randint(1, 9), n), rect(3, n)
        has = rng.random() < 0.6
        interp = rng.random() < 0.7
        if has:
            table(d + "origin_bound_x.csv", origin, "  ")
            table(d + "mink_bound_x.csv", mink, " ")
            table(d + "segment_x.csv", seg)
        table(d + "vertex_x.csv", vtx)
        table(d + "edge_x.csv", edge)
        table(d + "solution_path_x.csv", sol)
        if interp:
            table(d + "interpolated_path_x.csv", path)
        got = load_results("x", d)
        want = ([origin, mink, seg] if has else []) + [vtx, edge, path if interp else sol]
        put("tables", want=want, got=[[F(r) for r in g] for g in got if g is not None])


rigid()
moving()
surface()
files()
out.close()
