// Files: scenes, robots, end points, conversions, derived parameters and stored results.
#include "geo.hpp"
#include "scene3.hpp"
#include "hrm/config.h"
#include "hrm/test/util/DisplayPlanningData.h"
#include "hrm/test/util/ParsePlanningSettings.h"
#include "hrm/util/Parse2dCsvFile.h"
#include <dirent.h>
#include <unistd.h>
#include <algorithm>
using namespace hrm;
using V1 = std::vector<double>;
using V2 = std::vector<V1>;
static std::string dir() { return envStr("SCRATCH", ".") + "/"; }
static std::string text(double x, const char* f = "%.9g") {
    char b[60];
    snprintf(b, sizeof b, f, x);
    return b;
}
struct Line {
    bool c;
    int style;
    V1 nums;
    J json() const { return Rec().put("c", c).put("nums", nums).json(); }
};
static std::string render(const Line& l, Rng& r) {
    std::string s;
    if (l.c) s = r.p(0.5) ? "# " : "#";
    for (size_t k = 0; k < l.nums.size(); ++k) {
        if (k) s += l.style == 1 ? ", " : ",";
        s += text(l.nums[k], l.style == 3 ? "%.8e" : l.style == 6 ? "  %.9g " : l.style == 7 ? "%+.9g" : "%.9g");
    }
    if (l.style == 5) s += r.p(0.5) ? " # remark" : ", # no number";
    if (l.style == 4) s += ",";
    if (l.style == 2) s += "\r";
    return s;
}
static void write(const std::string& f, const std::vector<Line>& ls, bool ended, Rng& r) {
    std::ofstream o(f, std::ios::binary);
    for (size_t k = 0; k < ls.size(); ++k) o << render(ls[k], r) << (k + 1 < ls.size() || ended ? "\n" : "");
}
static void writeRows(const std::string& f, const V2& v, Rng& r) {
    std::vector<Line> ls;
    for (const auto& x : v) ls.push_back({false, 0, x});
    write(f, ls, true, r);
}
static std::vector<J> linesRec(const std::vector<Line>& ls) {
    std::vector<J> o;
    for (const auto& l : ls) o.push_back(l.json());
    return o;
}
static double number(Rng& r) {
    switch (r.i(0, 4)) {
        case 0: return r.i(-20, 20);
        case 1: return r.u(-1, 1);
        case 2: return r.u(-100, 100);
        case 3: return r.u(-1, 1) * 1e-4;
        default: return r.u(-1e5, 1e5);
    }
}
// reading a file without the repository's help
static V2 rowsOf(const std::string& f) {
    V2 o;
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
        if (!l.empty() && l[0] == '#') continue;
        V1 row;
        std::istringstream ss(l);
        std::string w;
        while (std::getline(ss, w, ','))
            if (w.find_first_of("0123456789") != std::string::npos) row.push_back(strtod(w.c_str(), nullptr));
        o.push_back(row);
    }
    return o;
}
static std::vector<std::vector<long>> whole(const V2& v) {
    std::vector<std::vector<long>> o;
    for (const auto& x : v) {
        o.emplace_back();
        for (double y : x) o.back().push_back(y == std::floor(y) && std::fabs(y) < 1e9 ? long(y) : -1);
    }
    return o;
}
static bool exists(const std::string& f) { return access(f.c_str(), R_OK) == 0; }

static V1 body2(Rng& r) { return {r.u(0.1, 9), r.u(0.1, 9), r.u(0.2, 1.8), r.u(-30, 30), r.u(-30, 30), r.u(-3.1, 3.1)}; }
static V1 body3(Rng& r) {
    const auto q = rquat(r);
    return {r.u(0.1, 9), r.u(0.1, 9), r.u(0.1, 9), r.u(0.2, 1.8), r.u(0.2, 1.8), r.u(-30, 30), r.u(-30, 30), r.u(-30, 30), q.w(), q.x(), q.y(), q.z()};
}
static std::vector<Line> bodyFile(Rng& r, int dim, int least) {
    std::vector<Line> ls;
    for (int k = r.i(least, 5); k > 0; --k) {
        if (r.p(0.2)) ls.push_back({true, 0, {1, 2}});
        ls.push_back({false, r.i(0, 7), dim == 2 ? body2(r) : body3(r)});
    }
    return ls;
}
// ---------------------------------------------------------------- F01
static void files(Out& out, const std::vector<JV>& cases) {
    Rng r(8100);
    const std::string f = dir() + "a.csv";
    for (const auto& c : cases) {
        std::vector<Line> ls;
        for (size_t k = 0; k < c["lines"].size(); ++k) {
            const auto& l = c["lines"][k];
            Line x{l["c"].d != 0, int(l["style"].d), {}};
            for (int j = int(l["n"].d); j > 0; --j) x.nums.push_back(number(r));
            ls.push_back(x);
        }
        write(f, ls, c["ended"].d != 0, r);
        out(Rec("csv").put("lines", linesRec(ls)).put("got", parse2DCsvFile(f)));
    }
    for (int t = 0; t < (thorough() ? 200 : 40); ++t) {
        const auto a = bodyFile(r, 2, 0), b = bodyFile(r, 3, 0);
        const int n = r.i(4, 12);
        write(f, a, r.p(0.5), r);
        std::vector<SuperEllipse> e{SuperEllipse({1, 1}, 1, {0, 0}, 0, 5)};
        loadVectorGeometry(f, n, e);
        std::vector<long> num;
        for (const auto& x : e) num.push_back(long(x.getNum()));
        out(Rec("load").put("lines", linesRec(a)).put("got", shapes(e)).put("num", num).put("want", n));
        write(f, b, r.p(0.5), r);
        std::vector<SuperQuadrics> q{SuperQuadrics({1, 1, 1}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), 5)};
        loadVectorGeometry(f, n, q);
        num.clear();
        for (const auto& x : q) num.push_back(long(x.getNumParam()));
        out(Rec("load").put("lines", linesRec(b)).put("got", shapes(q)).put("num", num).put("want", n));
    }
    for (int t = 0; t < (thorough() ? 200 : 40); ++t) {
        const std::string p = dir() + "r" + std::to_string(t) + "_";
        const int n = r.i(4, 12);
        const auto a = bodyFile(r, 2, 1), b = bodyFile(r, 3, 1);
        write(p + "robot_config_2D.csv", a, r.p(0.5), r);
        const auto m2 = loadRobotMultiBody2D(p, n);
        V2 off;
        for (const auto& g : m2.getTF()) off.push_back({g(0, 2), g(1, 2), std::atan2(g(1, 0), g(0, 0))});
        out(Rec("robot").put("dim", 2).put("lines", linesRec(a)).put("base", shape(m2.getBase())).put("links", shapes(m2.getLinks()))
                .put("off", off).put("num", long(m2.getBase().getNum())).put("want", n));
        write(p + "robot_config_3D.csv", b, r.p(0.5), r);
        V2 given;
        for (int k = t % 3 == 0 ? 0 : r.i(1, 6); k > 0; --k) {
            const auto q = rquat(r);
            given.push_back({q.x(), q.y(), q.z(), q.w()});
        }
        writeRows(p + "quats.csv", given, r);
        const auto m3 = loadRobotMultiBody3D(p, given.empty() ? "0" : p + "quats.csv", n);
        off.clear();
        for (const auto& g : m3.getTF()) {
            const Eigen::Quaterniond q(Eigen::Matrix3d(g.topLeftCorner(3, 3)));
            off.push_back({g(0, 3), g(1, 3), g(2, 3), q.w(), q.x(), q.y(), q.z()});
        }
        V2 quats;
        for (const auto& q : m3.getBase().getQuatSamples()) quats.push_back(qvec(q));
        out(Rec("robot").put("dim", 3).put("lines", linesRec(b)).put("base", shape(m3.getBase())).put("links", shapes(m3.getLinks()))
                .put("off", off).put("num", long(m3.getBase().getNumParam())).put("want", n).put("given", given).put("quats", quats));
        // a whole environment
        for (int dim = 2; dim <= 3; ++dim) {
            const std::string d = std::to_string(dim) + "D.csv";
            V2 ar, ob, en;
            for (int k = r.i(1, 2); k > 0; --k) ar.push_back(dim == 2 ? body2(r) : body3(r));
            for (int k = r.i(0, 4); k > 0; --k) ob.push_back(dim == 2 ? body2(r) : body3(r));
            for (int k = 0; k < 2; ++k) {
                en.emplace_back();
                for (int j = 0; j < (dim == 2 ? 3 : 10); ++j) en.back().push_back(number(r));
            }
            writeRows(p + "arena_config_" + d, ar, r);
            writeRows(p + "obstacle_config_" + d, ob, r);
            writeRows(p + "end_points_" + d, en, r);
            auto note = [&](auto& env) {
                env.loadEnvironment(p);
                out(Rec("world").put("arena", ar).put("obs", ob).put("ends", en).put("gotArena", shapes(env.getArena()))
                        .put("gotObs", shapes(env.getObstacle())).put("gotEnds", env.getEndPoints()));
            };
            if (dim == 2) { PlannerSetting2D env(n); note(env); if (t % 2) note(env); }
            else { PlannerSetting3D env(n); note(env); if (t % 2) note(env); }
        }
    }
    // conversions of arbitrary setups
    for (int t = 0; t < (thorough() ? 400 : 80); ++t) {
        const std::string from = dir() + "from.csv", to = dir() + "to.csv";
        const int dim = r.i(2, 3);
        V2 in;
        for (int k = r.i(0, 5); k > 0; --k) {
            V1 x = dim == 2 ? body2(r) : body3(r);
            if (dim == 3) {
                if (r.p(0.2)) x[8] = x[9] = x[10] = x[11] = 0;
                else {
                    for (int j = 8; j < 11; ++j) x[j] = r.u(-2, 2);
                    x[11] = r.p(0.2) ? 3.14159265 : r.u(-6, 6);
                }
            }
            in.push_back(x);
        }
        writeRows(from, in, r);
        parseGeometricModel(from, to);
        out(Rec("convert").put("what", "model").put("dim", dim).put("type", "").put("in", in).put("out", rowsOf(to)));
        const std::string type = r.pick(std::vector<std::string>{"snake", "tree", "rabbit", "chair"});
        in.clear();
        for (int k = 0; k < 2; ++k) {
            in.emplace_back();
            for (int j = 0; j < (dim == 2 ? 3 : r.i(16, 17)); ++j) in.back().push_back(number(r));
            if (dim == 3) {
                for (int j = 3; j < 6; ++j) in.back()[j] = r.u(-2, 2);
                in.back()[6] = r.u(-6, 6);
                if (r.p(0.2)) in.back()[3] = in.back()[4] = in.back()[5] = in.back()[6] = 0;
            }
        }
        writeRows(from, in, r);
        parseStartGoalConfig(type, std::to_string(dim) + "D", from, to);
        out(Rec("convert").put("what", "ends").put("dim", dim).put("type", type).put("in", in).put("out", rowsOf(to)));
    }
    // the repository's own setups
    for (int dim = 2; dim <= 3; ++dim) {
        const std::string D = std::to_string(dim) + "D", res = std::string(RESOURCES_PATH) + "/" + D + "/", cfg = std::string(CONFIG_PATH) + "/";
        std::vector<std::string> names;
        if (DIR* d = opendir(res.c_str())) {
            while (dirent* e = readdir(d)) names.push_back(e->d_name);
            closedir(d);
        }
        std::sort(names.begin(), names.end());
        for (const auto& n : names) {
            const std::string tail = "_" + D + ".csv";
            if (n.rfind("setting_", 0) != 0 || n.size() < tail.size() || n.substr(n.size() - tail.size()) != tail) continue;
            const std::string mid = n.substr(8, n.size() - 8 - tail.size());
            const auto us = mid.find('_');
            const std::string obj = mid.substr(0, us), env = mid.substr(us + 1);
            for (const auto& m : names) {
                if (m.rfind("robot_", 0) != 0 || m.size() < tail.size() || m.substr(m.size() - tail.size()) != tail) continue;
                const std::string robot = m.substr(6, m.size() - 6 - tail.size());
                const std::string base = res + "env_" + obj + "_" + env + "_" + D;
                if (!exists(base + "_arena.csv") || !exists(base + "_obstacle.csv")) continue;
                const V2 ends = rowsOf(res + n);
                const size_t need = dim == 2 ? 3 : robot == "snake" ? 10 : robot == "tree" ? 16 : 7;
                bool enough = true;
                for (const auto& e : ends) enough = enough && e.size() >= need;
                if (!enough) continue;
                parsePlanningConfig(obj, env, robot, D);
                auto note = [&](const char* what, const V2& in, const std::string& o) {
                    out(Rec("convert").put("what", what).put("dim", dim).put("type", robot).put("in", in).put("out", rowsOf(o)));
                };
                note("model", rowsOf(base + "_arena.csv"), cfg + "arena_config_" + D + ".csv");
                note("model", rowsOf(base + "_obstacle.csv"), cfg + "obstacle_config_" + D + ".csv");
                note("model", rowsOf(res + m), cfg + "robot_config_" + D + ".csv");
                note("ends", ends, cfg + "end_points_" + D + ".csv");
            }
        }
    }
}
// ---------------------------------------------------------------- F02
static void define(Out& out) {
    Rng r(8200);
    for (int t = 0; t < (thorough() ? 1000 : 200); ++t) {
        PlannerParameter p;
        p.numSlice = r.i(0, 7);
        p.numLineX = r.p(0.5) ? 0 : r.i(1, 50);
        p.numLineY = r.p(0.5) ? 0 : r.i(1, 50);
        p.numPoint = r.i(2, 9);
        if (r.p(0.3)) p.boundaryLimits = {1, 2, 3};
        const PlannerParameter q = p;
        Rec rec("define");
        auto done = [&](int dim, const V1& base, const V1& arena, const V2& obs, size_t given) {
            rec.put("dim", dim).put("base", base).put("arena", arena).put("obs", obs).put("lim", p.boundaryLimits).put("lx0", long(q.numLineX))
                .put("ly0", long(q.numLineY)).put("n0", long(q.numSlice)).put("lx", long(p.numLineX)).put("ly", long(p.numLineY))
                .put("n", long(p.numSlice)).put("given", long(given))
                .put("kept", p.numPoint == q.numPoint && p.numSearchNeighbor == q.numSearchNeighbor && p.searchRadius == q.searchRadius);
            out(rec);
        };
        auto grow = [&](V1 b, double f, int d) {
            for (int k = 0; k < d; ++k) b[k] = f * r.u(5, 9);
            return b;
        };
        if (t % 2) {
            std::vector<SuperEllipse> ar, ob;
            auto mk = [&](const V1& x) { return SuperEllipse({x[0], x[1]}, x[2], {x[3], x[4]}, x[5], 8); };
            for (int k = r.i(1, 2); k > 0; --k) ar.push_back(mk(grow(body2(r), 8, 2)));
            for (int k = r.i(1, 4); k > 0; --k) ob.push_back(mk(body2(r)));
            MultiBodyTree2D robot(mk(body2(r)));
            for (int k = r.i(0, 2); k > 0; --k) robot.addBody(mk(body2(r)));
            PlannerSetting2D env(8);
            env.setArena(ar);
            env.setObstacle(ob);
            defineParameters(robot, env, p);
            done(2, shape(robot.getBase()), shape(ar[0]), shapes(ob), 0);
        } else {
            std::vector<SuperQuadrics> ar, ob;
            auto mk = [&](const V1& x) {
                return SuperQuadrics({x[0], x[1], x[2]}, {x[3], x[4]}, {x[5], x[6], x[7]}, Eigen::Quaterniond(x[8], x[9], x[10], x[11]), 4);
            };
            for (int k = r.i(1, 2); k > 0; --k) ar.push_back(mk(grow(body3(r), 8, 3)));
            for (int k = r.i(1, 4); k > 0; --k) ob.push_back(mk(body3(r)));
            auto base = mk(body3(r));
            std::vector<Eigen::Quaterniond> qs;
            for (int k = r.p(0.5) ? 0 : r.i(1, 6); k > 0; --k) qs.push_back(rquat(r));
            if (!qs.empty()) base.setQuatSamples(qs);
            MultiBodyTree3D robot(base);
            for (int k = r.i(0, 2); k > 0; --k) robot.addBody(mk(body3(r)));
            PlannerSetting3D env(4);
            env.setArena(ar);
            env.setObstacle(ob);
            defineParameters(robot, env, p);
            done(3, shape(robot.getBase()), shape(ar[0]), shapes(ob), qs.size());
        }
    }
}
// ---------------------------------------------------------------- F03
static void store(Out& out) {
    Rng r(8300);
    const std::string d = std::string(SOLUTION_DETAILS_PATH) + "/";
    for (int t = 0; t < (thorough() ? 600 : 120); ++t) {
        const std::string suf = "vp" + std::to_string(r.i(0, 2));       // files are written again and again
        const int dim = r.pick(std::vector<int>{3, 7, 10});
        Graph g;
        SolutionPathInfo s;
        const int n = r.p(0.1) ? 0 : r.i(1, r.p(0.1) ? 300 : 12);
        auto conf = [&] {
            V1 c;
            for (int k = 0; k < dim; ++k) c.push_back(number(r));
            return c;
        };
        for (int k = 0; k < n; ++k) g.vertex.push_back(conf());
        for (int k = n ? r.i(0, 2 * n) : 0; k > 0; --k) {
            g.edge.push_back({Index(r.i(0, n - 1)), Index(r.i(0, n - 1))});
            g.weight.push_back(1);
        }
        if (n && r.p(0.1)) g.edge.push_back({Index(1234567), Index(98765432)});
        if (n && r.p(0.7))
            for (int k = r.i(1, 7); k > 0; --k) s.PathId.push_back(Index(r.p(0.1) ? 2345678 : r.i(0, n - 1)));
        for (size_t k = 0; k < (s.PathId.empty() ? 0 : s.PathId.size() + 2); ++k) s.solvedPath.push_back(conf());
        for (size_t k = 0; k < s.solvedPath.size() * 3; ++k) s.interpolatedPath.push_back(conf());
        storeGraphInfo(g, suf);
        storePathInfo(s, suf);
        std::vector<std::vector<long>> e;
        for (const auto& x : g.edge) e.push_back({long(x.first), long(x.second)});
        std::vector<long> fid;
        for (const auto& row : whole(rowsOf(d + "path_id_" + suf + ".csv"))) fid.insert(fid.end(), row.begin(), row.end());
        // read back by the repository's reader, as written: the same numbers up to its precision
        V2 back = parse2DCsvFile(d + "vertex_" + suf + ".csv"), fv = rowsOf(d + "vertex_" + suf + ".csv");
        bool same = back.size() == fv.size();
        for (size_t k = 0; same && k < fv.size(); ++k) {
            same = back[k].size() == fv[k].size();
            for (size_t j = 0; same && j < fv[k].size(); ++j) same = std::fabs(back[k][j] - fv[k][j]) <= 2e-7 * std::fabs(fv[k][j]);
        }
        out(Rec("store").put("v", g.vertex).put("e", e).put("id", std::vector<long>(s.PathId.begin(), s.PathId.end())).put("sol", s.solvedPath)
                .put("interp", s.interpolatedPath).put("fv", fv).put("fe", whole(rowsOf(d + "edge_" + suf + ".csv")))
                .put("fid", fid)
                .put("fsol", rowsOf(d + "solution_path_" + suf + ".csv"))
                .put("finterp", rowsOf(d + "interpolated_path_" + suf + ".csv")).put("readv", same ? fv : V2{}));
    }
}
// the boundaries and free segments of a plan's first C-slice
static V2 blank(const std::string& f) {
    V2 o;
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
        V1 row;
        for (char& c : l)
            if (c == ',') c = ' ';
        std::istringstream ss(l);
        for (double x; ss >> x;) row.push_back(x);
        o.push_back(row);
    }
    return o;
}
static void stack(V2& o, const std::vector<Eigen::MatrixXd>& ms) {
    for (const auto& m : ms)
        for (int k = 0; k < m.rows(); ++k) {
            o.emplace_back();
            for (int j = 0; j < m.cols(); ++j) o.back().push_back(m(k, j));
        }
}
static void routines(Out& out) {
    Rng r(8400);
    const std::string d = std::string(SOLUTION_DETAILS_PATH) + "/";
    for (int t = 0; t < (thorough() ? 40 : 8); ++t) {
        Scene3 s = scene3(r, false, 1, 2, 4);
        planners::HRM3D p(*s.robot, s.arena, s.obs, s.req);
        p.plan(1e-9);
        const std::string suf = "vr" + std::to_string(t % 2);
        storeRoutines(p, suf);
        V2 origin, mink, seg;
        for (const auto& o : s.obs) stack(origin, {o.getOriginShape()});
        for (const auto& a : s.arena) stack(origin, {a.getOriginShape()});
        const BoundaryInfo b = p.getSliceBoundary(0);
        stack(mink, b.obstacle);
        stack(mink, b.arena);
        const auto fs = p.getFreeSegmentOneSlice(&b);
        for (size_t i = 0; i < fs.tx.size(); ++i) {
            const auto& f = fs.freeSegmentYZ[i];
            for (size_t j = 0; j < f.ty.size(); ++j)
                for (size_t k = 0; k < f.xL[j].size(); ++k) seg.push_back({fs.tx[i], f.ty[j], f.xL[j][k], f.xM[j][k], f.xU[j][k]});
        }
        out(Rec("routine").put("origin", origin).put("mink", mink).put("seg", seg).put("fo", blank(d + "origin_bound_" + suf + ".csv"))
                .put("fm", blank(d + "mink_bound_" + suf + ".csv")).put("fs", blank(d + "segment_" + suf + ".csv")));
    }
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    static std::ofstream& null = *new std::ofstream("/dev/null");
    std::cout.rdbuf(null.rdbuf());
    const std::string m = argv[1];
    Out out(argv[2]);
    if (m == "files") files(out, readCases(argv[3]));
    else if (m == "define") define(out);
    else if (m == "store") store(out), routines(out);
    else return 3;
    return 0;
}
