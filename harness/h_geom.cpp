// B01 - B07: shapes, enclosing ellipsoids, robots, interpolation, separation.
#include "common.hpp"
#include "geo.hpp"
#include "poly.hpp"
#include "hrm/datastructure/MultiBodyTree2D.h"
#include "hrm/datastructure/MultiBodyTree3D.h"
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/util/EllipsoidSQCollisionFCL.h"
#include "hrm/util/EllipsoidSeparation.h"
#include "hrm/util/InterpolateSE3.h"
#include <functional>
#include <urdf_model/model.h>
#include <urdf_parser/urdf_parser.h>
using namespace hrm;
using V1 = std::vector<double>;
using V2 = std::vector<V1>;

static const double PIX = 3.14159265358979323846;
static double eps1(Rng& r, double lo = 0.2, double hi = 1.8) {
    return r.p(0.3) ? 1.0 : r.p(0.15) ? lo : r.u(lo, hi);
}
static SuperEllipse ell(Rng& r, double smin, double smax, double spread, int num) {
    return SuperEllipse({r.u(smin, smax), r.u(smin, smax)}, 1, {r.u(-spread, spread), r.u(-spread, spread)},
                        r.u(-PIX, PIX), num);
}
static SuperQuadrics eld(Rng& r, double smin, double smax, double spread, int num) {
    return SuperQuadrics({r.u(smin, smax), r.u(smin, smax), r.u(smin, smax)}, {1, 1},
                         {r.u(-spread, spread), r.u(-spread, spread), r.u(-spread, spread)}, rquat(r), num);
}
static V1 ang(Rng& r) {
    return V1{0, PIX / 4, PIX / 2, PIX, -PIX / 2, 2 * PIX, -PIX, r.u(-7, 7), r.u(-PIX, PIX), r.u(-0.01, 0.01)};
}
static Eigen::Quaterniond special(Rng& r) {
    const double h = std::sqrt(0.5);
    std::vector<Eigen::Quaterniond> v{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {h, h, 0, 0},
                                      {h, 0, 0, -h}, {0.5, 0.5, 0.5, 0.5}, {-1, 0, 0, 0}};
    return r.p(0.35) ? v[r.i(0, 7)] : rquat(r);
}

static SuperQuadrics quadricAt(Rng& r) {
    return SuperQuadrics({r.u(1, 8), r.u(1, 8), r.u(1, 8)}, {r.u(0.3, 1.7), r.u(0.3, 1.7)},
                         {r.u(-9, 9), r.u(-9, 9), r.u(-9, 9)}, rquat(r), 6);
}
static std::string js_(const std::vector<J>& v) { return js(v); }

// ---------------------------------------------------------------- B01
static void mink(Out& out) {
    Rng r(101);
    const int n2 = thorough() ? 500 : 100, n3 = thorough() ? 250 : 45;
    for (int t = 0; t < n2; ++t) {
        SuperEllipse s1({r.u(0.5, 10), r.u(0.5, 10)}, eps1(r), {r.u(-10, 10), r.u(-10, 10)}, r.u(-7, 7), r.i(8, 60));
        SuperEllipse e = ell(r, 0.2, 8, 10, r.i(8, 50));
        if (t % 11 == 0) e.setSemiAxis({e.getSemiAxis()[0], e.getSemiAxis()[0]});
        if (t % 7 == 0) e.setAngle(s1.getAngle());
        if (t % 8 == 3) e.setSemiAxis({r.u(0.02, 0.2), r.u(0.02, 0.2)});            // a tiny robot, a large obstacle
        if (t % 16 == 3) s1.setSemiAxis({r.u(20, 80), r.u(20, 80)});
        out(Rec("mink2").put("K", 1).put("body", shape(s1)).put("ell", shape(e)).put("pts", cols(s1.getMinkSum2D(e, +1))));
    }
    for (int t = 0; t < n2 / 3; ++t) {       // smooth arenas
        SuperEllipse s1({r.u(15, 30), r.u(15, 30)}, r.u(0.7, 1), {r.u(-10, 10), r.u(-10, 10)}, r.u(-7, 7), r.i(20, 80));
        SuperEllipse e = ell(r, 0.5, 1.2, 10, 50);
        out(Rec("mink2").put("K", -1).put("body", shape(s1)).put("ell", shape(e)).put("pts", cols(s1.getMinkSum2D(e, -1))));
    }
    for (int t = 0; t < n3; ++t) {
        SuperQuadrics s1({r.u(0.5, 8), r.u(0.5, 8), r.u(0.5, 8)}, {eps1(r, 0.3, 1.7), eps1(r, 0.3, 1.7)},
                         {r.u(-9, 9), r.u(-9, 9), r.u(-9, 9)}, special(r), r.i(6, thorough() ? 10 : 7));
        SuperQuadrics e = eld(r, 0.3, 5, 9, 8);
        if (t % 8 == 3) e.setSemiAxis({r.u(0.02, 0.2), r.u(0.02, 0.2), r.u(0.02, 0.2)});
        if (t % 16 == 3) s1.setSemiAxis({r.u(20, 80), r.u(20, 80), r.u(20, 80)});
        out(Rec("mink3").put("K", 1).put("body", shape(s1)).put("ell", shape(e)).put("n", int(s1.getNumParam()))
                .put("pts", cols(s1.getMinkSum3D(e, +1))));
    }
    for (int t = 0; t < n3 / 3; ++t) {
        SuperQuadrics s1({r.u(15, 25), r.u(15, 25), r.u(15, 25)}, {r.u(0.75, 1), r.u(0.75, 1)},
                         {r.u(-9, 9), r.u(-9, 9), r.u(-9, 9)}, special(r), r.i(6, 9));
        SuperQuadrics e = eld(r, 0.6, 1.1, 9, 8);
        out(Rec("mink3").put("K", -1).put("body", shape(s1)).put("ell", shape(e)).put("n", int(s1.getNumParam()))
                .put("pts", cols(s1.getMinkSum3D(e, -1))));
    }
}

// ---------------------------------------------------------------- B02
static void enclose(Out& out) {
    Rng r(102);
    const int n = thorough() ? 1500 : 250;
    for (int t = 0; t < n; ++t) {
        V1 a{r.u(0.3, 9), r.u(0.3, 9)}, b{r.u(0.3, 9), r.u(0.3, 9)};
        if (t % 5 == 0) b = a;
        if (t % 13 == 0) b[1] = b[0];
        if (t % 17 == 0) b = {a[0] / 2, a[1] / 3};
        auto hair = [&] { return r.u(-1, 1) * std::pow(10.0, -r.i(1, 5)); };
        if (t % 6 == 1) (t % 4 ? a : b)[1] = (t % 4 ? a : b)[0] * (1 + hair());      // almost round
        double ta = r.pick(ang(r)), tb = r.pick(ang(r));
        if (t % 6 == 2) tb = ta + hair();                                           // hardly turned
        if (t % 6 == 3) b = {a[0] * (1 + hair()), a[1] * (1 + hair())};             // hardly different
        SuperEllipse c = getMVCE2D(a, b, ta, tb, 20);
        out(Rec("mvce2").put("a", V1{a[0], a[1], 1, 0, 0, ta}).put("b", V1{b[0], b[1], 1, 0, 0, tb}).put("c", shape(c)));
        int steps = t % 9 == 4 ? r.i(13, 60) : r.i(2, 12);
        double tc = t % 4 == 0 ? ta + (t % 8 ? r.u(-0.3, 0.3) : hair()) : tb;
        SuperEllipse d = getTFE2D(a, ta, tc, steps, 20);
        out(Rec("tfe2").put("a", V1{a[0], a[1], 1, 0, 0, 0}).put("from", ta).put("to", tc).put("steps", steps).put("c", shape(d)));
    }
    for (int t = 0; t < n / 2; ++t) {
        V1 a{r.u(0.5, 9), r.u(0.5, 9), r.u(0.5, 9)}, b{r.u(0.5, 9), r.u(0.5, 9), r.u(0.5, 9)};
        if (t % 5 == 0) b = a;
        if (t % 7 == 0) a[1] = a[0];
        if (t % 17 == 0) b = {a[0] / 2, a[1] / 3, a[2] / 2};
        auto hair = [&] { return r.u(-1, 1) * std::pow(10.0, -r.i(1, 5)); };
        if (t % 6 == 1) (t % 4 ? a : b)[r.i(1, 2)] = (t % 4 ? a : b)[0] * (1 + hair());
        if (t % 6 == 3) b = {a[0] * (1 + hair()), a[1] * (1 + hair()), a[2] * (1 + hair())};
        Eigen::Quaterniond qa = special(r), qb = t % 3 == 0 ? special(r) : rquat(r);
        if (t % 6 == 2) qb = qa * Eigen::Quaterniond(Eigen::AngleAxisd(hair(), Eigen::Vector3d(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)).normalized()));
        auto sq = [](const V1& s, const Eigen::Quaterniond& q) {
            return shape(SuperQuadrics({s[0], s[1], s[2]}, {1, 1}, {0, 0, 0}, q, 6));
        };
        out(Rec("mvce3").put("a", sq(a, qa)).put("b", sq(b, qb)).put("c", shape(getMVCE3D(a, b, qa, qb, 6))));
        int steps = t % 9 > 6 ? r.i(11, 50) : r.i(2, 10);
        if (t % 2) {   // a moderate rotation, so that intermediate steps matter
            Eigen::Vector3d ax(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
            qb = qa * Eigen::Quaterniond(Eigen::AngleAxisd(t % 4 == 1 ? std::pow(10.0, r.u(-3.5, -0.5)) : r.u(0.3, 2.9), ax.normalized()));
        }
        out(Rec("tfe3").put("a", sq(a, qa)).put("from", qvec(qa)).put("to", qvec(qb)).put("steps", steps)
                .put("c", shape(getTFE3D(a, qa, qb, steps, 6))));
    }
}

// ---------------------------------------------------------------- B03
static void sampled(Out& out) {
    Rng r(103);
    const int n = thorough() ? 300 : 60;
    for (int t = 0; t < n; ++t) {
        V1 w{r.u(0.5, 10), r.u(0.5, 10), eps1(r, 0.1, 1.9), r.u(-10, 10), r.u(-10, 10), r.u(-7, 7)};    // the shape as asked for
        SuperEllipse s({w[0], w[1]}, w[2], {w[3], w[4]}, w[5], r.i(6, 80));
        for (int h = 0; h < 3; ++h) {      // the same object re-posed and re-sized
            out(Rec("bound2").put("body", w).put("n", int(s.getNum())).put("pts", cols(s.getOriginShape())));
            w[3] = r.u(-10, 10), w[4] = r.u(-10, 10);
            s.setPosition({w[3], w[4]});
            if (h) s.setAngle(w[5] = r.u(-7, 7));
            if (r.p(0.4)) { w[0] = r.u(0.5, 4), w[1] = r.u(0.5, 4); s.setSemiAxis({w[0], w[1]}); }
            if (r.p(0.4)) s.setEpsilon(w[2] = eps1(r, 0.1, 1.9));
        }
        for (int h = r.i(1, 30); h > 0; --h) {    // by little steps
            const double d = std::pow(10.0, r.u(-7, -1));
            s.setAngle(w[5] += d);
            w[3] += d, w[4] -= d;
            s.setPosition({w[3], w[4]});
            w[0] += d, w[1] += d / 2;
            s.setSemiAxis({w[0], w[1]});
            if (w[2] + d < 1.9) s.setEpsilon(w[2] += d);
        }
        out(Rec("bound2").put("body", w).put("n", int(s.getNum())).put("pts", cols(s.getOriginShape())));
    }
    auto want3 = [](const V1& a, const V1& e, const V1& p, const Eigen::Quaterniond& q) {
        V1 w = a;
        for (const V1& v : {e, p, qvec(q)}) w.insert(w.end(), v.begin(), v.end());
        return w;
    };
    for (int t = 0; t < n; ++t) {
        V1 wa{r.u(0.5, 8), r.u(0.5, 8), r.u(0.5, 8)}, we{eps1(r, 0.2, 1.8), eps1(r, 0.2, 1.8)}, wp{r.u(-9, 9), r.u(-9, 9), r.u(-9, 9)};
        Eigen::Quaterniond wq = special(r);
        SuperQuadrics s({wa[0], wa[1], wa[2]}, {we[0], we[1]}, {wp[0], wp[1], wp[2]}, wq, t % 8 == 5 ? r.i(17, 40) : r.i(4, 16));
        for (int h = 0; h < 2; ++h) {
            const int nn = s.getNumParam();
            const auto b = s.getOriginShape();
            out(Rec("bound3").put("body", want3(wa, we, wp, wq)).put("n", nn).put("pts", cols(b)));
            const MeshMatrix m = getMeshFromParamSurface(b, nn);
            out(Rec("mesh").put("n", nn).put("pts", cols(b)).put("v", cols(m.vertices)).put("f", ints(rows(m.faces))));
            wp = {r.u(-9, 9), r.u(-9, 9), r.u(-9, 9)};
            s.setPosition({wp[0], wp[1], wp[2]});
            s.setQuaternion(wq = special(r));
            if (r.p(0.5)) { we = {eps1(r, 0.3, 1.7), eps1(r, 0.3, 1.7)}; s.setEpsilon({we[0], we[1]}); }
            if (r.p(0.5)) { wa = {r.u(0.5, 8), r.u(0.5, 8), r.u(0.5, 8)}; s.setSemiAxis({wa[0], wa[1], wa[2]}); }
        }
        for (int h = r.i(1, 20); h > 0; --h) {    // by little steps
            const double d = std::pow(10.0, r.u(-7, -1));
            Eigen::Vector3d ax(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
            wq = wq * Eigen::Quaterniond(Eigen::AngleAxisd(d, ax.normalized()));
            s.setQuaternion(wq);
            for (double& x : wp) x += d;
            s.setPosition({wp[0], wp[1], wp[2]});
            for (double& x : wa) x += d;
            s.setSemiAxis({wa[0], wa[1], wa[2]});
        }
        out(Rec("bound3").put("body", want3(wa, we, wp, wq)).put("n", int(s.getNumParam())).put("pts", cols(s.getOriginShape())));
        if (t % 3 == 0) {
            const Mesh m = getMeshFromSQ(s);
            V2 v;
            for (const auto& p : m.vertices) v.push_back({p(0), p(1), p(2)});
            std::vector<std::vector<int>> f;
            for (const auto& x : m.triangles) f.push_back({int(x[0]), int(x[1]), int(x[2])});
            SuperQuadrics c = s;      // the mesh is in the frame of the body
            c.setPosition({0, 0, 0});
            c.setQuaternion(Eigen::Quaterniond::Identity());
            out(Rec("cmesh").put("body", shape(c)).put("n", int(s.getNumParam())).put("v", v).put("f", f));
        }
    }
}

// ---------------------------------------------------------------- B04
static SE3Transform se3(const V1& p) {   // x y z w i j k
    SE3Transform g = SE3Transform::Identity();
    g.topLeftCorner(3, 3) = Eigen::Quaterniond(p[3], p[4], p[5], p[6]).normalized().toRotationMatrix();
    g.topRightCorner(3, 1) = Eigen::Vector3d(p[0], p[1], p[2]);
    return g;
}
static SE2Transform se2(const V1& p) {
    SE2Transform g = SE2Transform::Identity();
    g.topLeftCorner(2, 2) = Eigen::Rotation2Dd(p[2]).toRotationMatrix();
    g.topRightCorner(2, 1) = Eigen::Vector2d(p[0], p[1]);
    return g;
}
static std::vector<V1> bodies(const MultiBodyTree2D& r) {
    std::vector<V1> o{shape(r.getBase())};
    for (const auto& l : r.getLinks()) o.push_back(shape(l));
    return o;
}
static std::vector<V1> bodies(const MultiBodyTree3D& r) {
    std::vector<V1> o{shape(r.getBase())};
    for (const auto& l : r.getLinks()) o.push_back(shape(l));
    return o;
}
static void rigid(Out& out, const char* cases) {
    Rng r(104);
    const int reps = thorough() ? 4 : 1;
    for (const auto& c : readCases(cases)) {
        for (int rep = 0; rep < reps; ++rep) {
            const int nl = int(c["links"].d);
            std::vector<int> ops;
            for (double x : c["ops"].nums()) ops.push_back(int(x));
            {   // plane
                V1 last{0, 0, 0};
                if (r.p(0.5)) last = {r.u(-9, 9), r.u(-9, 9), r.u(-3, 3)};
                SuperEllipse base({r.u(1, 5), r.u(1, 5)}, 1, {last[0], last[1]}, last[2], 12);
                MultiBodyTree2D rob(base);
                V2 off, init{shape(base)}, poses;
                for (int k = 0; k < nl; ++k) {
                    SuperEllipse l({r.u(1, 3), r.u(1, 3)}, 1, {r.u(-6, 6), r.u(-6, 6)}, r.u(-3, 3), 12);
                    off.push_back({l.getPosition()[0], l.getPosition()[1], l.getAngle()});
                    init.push_back(shape(l));
                    rob.addBody(l);
                }
                std::vector<V2> seen{bodies(rob)};
                for (int op : ops) {
                    V1 p;
                    if (op == 0) rob.minkSum(SuperEllipse({r.u(1, 9), r.u(1, 9)}, r.u(0.3, 1.7), {r.u(-9, 9), 2}, 1, 12), r.p(0.5) ? 1 : -1);
                    else if (op == 9) { MultiBodyTree2D copy = rob; copy.robotTF(se2({1, 2, 3})); }
                    else {
                        p = {r.u(-20, 20), r.u(-20, 20), op == 1 ? 0 : op == 2 ? PIX : op == 4 ? last[2] : r.u(-7, 7)};
                        if (op == 4 && r.p(0.3)) p = last;
                        rob.robotTF(se2(last = p));
                    }
                    poses.push_back(p);
                    seen.push_back(bodies(rob));
                }
                out(Rec("rigid2").put("init", init).put("off", off).put("poses", poses).put("seen", seen));
            }
            {   // space
                V1 last{0, 0, 0, 1, 0, 0, 0};
                if (r.p(0.5)) { const auto q = special(r); last = {r.u(-9, 9), r.u(-9, 9), r.u(-9, 9), q.w(), q.x(), q.y(), q.z()}; }
                SuperQuadrics base({r.u(1, 5), r.u(1, 5), r.u(1, 5)}, {1, 1}, {last[0], last[1], last[2]},
                                   Eigen::Quaterniond(last[3], last[4], last[5], last[6]), 6);
                MultiBodyTree3D rob(base);
                V2 off, init{shape(base)}, poses;
                for (int k = 0; k < nl; ++k) {
                    SuperQuadrics l({r.u(1, 3), r.u(1, 3), r.u(1, 3)}, {1, 1}, {r.u(-6, 6), r.u(-6, 6), r.u(-6, 6)}, special(r), 6);
                    const auto& q = l.getQuaternion();
                    off.push_back({l.getPosition()[0], l.getPosition()[1], l.getPosition()[2], q.w(), q.x(), q.y(), q.z()});
                    init.push_back(shape(l));
                    rob.addBody(l);
                }
                std::vector<V2> seen{bodies(rob)};
                for (int op : ops) {
                    V1 p;
                    if (op == 0) rob.minkSum(quadricAt(r), r.p(0.5) ? 1 : -1);
                    else if (op == 9) { MultiBodyTree3D copy = rob; copy.robotTF(se3({1, 2, 3, 1, 0, 0, 0})); copy.getBodyShapes(); }
                    else {
                        Eigen::Quaterniond q = op == 1 ? Eigen::Quaterniond::Identity() : op == 2 ? Eigen::Quaterniond(0, 0, 1, 0) :
                            op == 4 ? Eigen::Quaterniond(last[3], last[4], last[5], last[6]) : special(r);
                        p = {r.u(-20, 20), r.u(-20, 20), r.u(-20, 20), q.w(), q.x(), q.y(), q.z()};
                        if (op == 4 && r.p(0.3)) p = last;
                        rob.robotTF(se3(last = p));
                    }
                    poses.push_back(p);
                    seen.push_back(bodies(rob));
                }
                V2 listed;
                for (const auto& s : rob.getBodyShapes()) listed.push_back(shape(s));
                out(Rec("rigid3").put("init", init).put("off", off).put("poses", poses).put("seen", seen).put("listed", listed));
            }
        }
    }
    // the boundaries of a posed robot: those of each body, seen from the base
    const int n = thorough() ? 60 : 15;
    for (int t = 0; t < n; ++t) {
        MultiBodyTree2D rob(SuperEllipse({r.u(1, 4), r.u(1, 4)}, 1, {0, 0}, 0, 20));
        for (int k = r.i(0, 3); k > 0; --k)
            rob.addBody(SuperEllipse({r.u(1, 3), r.u(1, 3)}, 1, {r.u(-6, 6), r.u(-6, 6)}, r.u(-3, 3), 20));
        rob.robotTF(se2({r.u(-9, 9), r.u(-9, 9), r.u(-7, 7)}));
        SuperEllipse s({r.u(1, 8), r.u(1, 8)}, r.u(0.3, 1.7), {r.u(-9, 9), r.u(-9, 9)}, r.u(-3, 3), 20);
        std::vector<V2> m;
        for (const auto& b : rob.minkSum(s, 1)) m.push_back(cols(b));
        out(Rec("msum2").put("bodies", bodies(rob)).put("obj", shape(s)).put("mink", m));
        MultiBodyTree3D rob3(SuperQuadrics({r.u(1, 4), r.u(1, 4), r.u(1, 4)}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), 6));
        for (int k = r.i(0, 2); k > 0; --k) rob3.addBody(eld(r, 1, 3, 6, 6));
        auto q = rquat(r);
        rob3.robotTF(se3({r.u(-9, 9), r.u(-9, 9), r.u(-9, 9), q.w(), q.x(), q.y(), q.z()}));
        SuperQuadrics s3({r.u(1, 8), r.u(1, 8), r.u(1, 8)}, {r.u(0.3, 1.7), r.u(0.3, 1.7)}, {r.u(-9, 9), r.u(-9, 9), r.u(-9, 9)}, rquat(r), 6);
        m.clear();
        for (const auto& b : rob3.minkSum(s3, 1)) m.push_back(cols(b));
        out(Rec("msum3").put("bodies", bodies(rob3)).put("obj", shape(s3)).put("mink", m));
    }
}

// ---------------------------------------------------------------- B05
static std::string nm(int b) { return b == 0 ? "base" : "body" + std::to_string(b); }
static std::string s17(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
static void fkRecord(Out& out, const J& joints, const std::string& file, int nl, int dof, Rng& r) {
    MultiBodyTree3D rob(SuperQuadrics({2, 3, 4}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), 5));
    V2 off;
    for (int k = 0; k < nl; ++k) {
        SuperQuadrics l = eld(r, 1, 3, 4, 5);
        if (k == 0 && r.p(0.5)) l.setPosition({0, 0, 0}), l.setQuaternion(Eigen::Quaterniond::Identity());
        const auto& q = l.getQuaternion();
        off.push_back({l.getPosition()[0], l.getPosition()[1], l.getPosition()[2], q.w(), q.x(), q.y(), q.z()});
        rob.addBody(l);
    }
    const V2 init = bodies(rob);
    ParseURDF kdl(file);
    V2 poses, jq;
    std::vector<V2> seen, rigidSeen;
    V2 rigid;
    Eigen::Quaterniond q;
    for (int h = 0; h < 5; ++h) {
        if (h < 3 || r.p(0.5)) q = special(r);                    // or the orientation of the last one
        V1 p{r.u(-9, 9), r.u(-9, 9), r.u(-9, 9), q.w(), q.x(), q.y(), q.z()};
        Eigen::VectorXd j(dof);
        const double reach = r.p(0.3) ? 9 : PIX;
        for (int k = 0; k < dof; ++k) j(k) = r.p(0.15) ? 0 : r.u(-reach, reach);
        if (h % 2) rob.robotTF(kdl, se3(p), j);
        else rob.robotTF(file, se3(p), j);
        poses.push_back(p);
        jq.push_back(V1(j.data(), j.data() + dof));
        seen.push_back(bodies(rob));
        if (h == 1) rob.minkSum(quadricAt(r), 1);
        if (h == 2 || h == 3) {                                   // a rigid transform in between
            if (h == 2) p = {1, 2, 3, 0, 1, 0, 0};
            else p[0] += r.u(-9, 9);
            rob.robotTF(se3(p));
            rigid.push_back(p);
            rigidSeen.push_back(bodies(rob));
        }
    }
    out(Rec("urdf").put("joints", joints).put("off", off).put("init", init).put("poses", poses).put("q", jq).put("seen", seen)
            .put("rigid", rigid).put("rigidSeen", rigidSeen));
}
static void urdfs(Out& out, const char* cases) {
    Rng r(105);
    const std::string dir = envStr("SCRATCH", ".");
    const char* types[] = {"revolute", "continuous", "fixed", "prismatic"};
    int id = 0;
    for (const auto& c : readCases(cases)) {
        const auto parents = c["parents"].nums();
        const auto kinds = c["kinds"].nums();
        const int n = parents.size();
        std::string xml = "<?xml version=\"1.0\"?>\n<robot name=\"r\">\n";
        for (int b = 0; b <= n; ++b) xml += "<link name=\"" + nm(b) + "\"/>\n";
        std::vector<J> js;
        int dof = 0;
        for (int b = 1; b <= n; ++b) {
            const int kind = int(kinds[b - 1]);
            V1 pos{r.u(-5, 5), r.u(-5, 5), r.u(-5, 5)}, rpy{r.u(-3, 3), r.u(-1.5, 1.5), r.u(-3, 3)}, ax{0, 0, 0};
            if (r.p(0.3)) rpy = {0, 0, 0};
            if (r.p(0.6)) ax[r.i(0, 2)] = r.p(0.7) ? 1 : -1;
            else { Eigen::Vector3d a = Eigen::Vector3d(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)).normalized(); ax = {a(0), a(1), a(2)}; }
            char nmj[8];
            snprintf(nmj, sizeof nmj, "j%02d", b);
            xml += std::string("<joint name=\"") + nmj + "\" type=\"" + types[kind] + "\"><parent link=\"" + nm(int(parents[b - 1])) +
                   "\"/><child link=\"" + nm(b) + "\"/><origin xyz=\"" + s17(pos[0]) + " " + s17(pos[1]) + " " + s17(pos[2]) +
                   "\" rpy=\"" + s17(rpy[0]) + " " + s17(rpy[1]) + " " + s17(rpy[2]) + "\"/><axis xyz=\"" + s17(ax[0]) + " " +
                   s17(ax[1]) + " " + s17(ax[2]) + "\"/>" +
                   (kind == 0 || kind == 3 ? "<limit lower=\"-4\" upper=\"4\" effort=\"1\" velocity=\"1\"/>" : "") + "</joint>\n";
            js.push_back(Rec().put("parent", int(parents[b - 1])).put("pos", pos).put("rpy", rpy).put("axis", ax)
                             .put("type", types[kind]).put("q", kind == 2 ? 0 : ++dof).json());
        }
        const std::string f = dir + "/r" + std::to_string(id++) + ".urdf";
        std::ofstream(f) << xml << "</robot>\n";
        fkRecord(out, J(js_(js)), f, n, dof, r);
    }
    // the robots that come with the planner (those whose bodies it can name)
    for (const std::string name : {"snake", "tree"}) {
        const std::string f = envStr("HRM_REPO", "/repo") + "/resources/3D/urdf/" + name + ".urdf";
        auto model = urdf::parseURDFFile(f);
        if (!model) { fprintf(stderr, "cannot read %s\n", f.c_str()); exit(3); }
        std::vector<J> js;
        int dof = 0, n = 0;
        std::map<std::string, int> idx{{model->getRoot()->name, 0}};
        // order of the description: depth first
        std::vector<std::string> order;
        std::function<void(const urdf::LinkSharedPtr&)> walk = [&](const urdf::LinkSharedPtr& l) {
            for (const auto& ch : l->child_links) {
                order.push_back(ch->name);
                walk(ch);
            }
        };
        walk(model->links_[model->getRoot()->name]);
        std::map<std::string, int> qi;
        for (const auto& o : order)
            if (model->links_[o]->parent_joint->type != urdf::Joint::FIXED) qi[o] = ++dof;
        while (model->links_.count(nm(n + 1))) ++n;
        if (int(order.size()) != n) { fprintf(stderr, "unexpected bodies in %s\n", f.c_str()); exit(3); }
        for (int b = 1; b <= n; ++b) idx[nm(b)] = b;
        for (int b = 1; b <= n; ++b) {
            const auto j = model->links_[nm(b)]->parent_joint;
            const auto& o = j->parent_to_joint_origin_transform;
            double ro, pi, ya;
            o.rotation.getRPY(ro, pi, ya);
            if (idx[j->parent_link_name] >= b) { fprintf(stderr, "unexpected order in %s\n", f.c_str()); exit(3); }
            js.push_back(Rec().put("parent", idx[j->parent_link_name]).put("pos", V1{o.position.x, o.position.y, o.position.z})
                             .put("rpy", V1{ro, pi, ya}).put("axis", V1{j->axis.x, j->axis.y, j->axis.z})
                             .put("type", j->type == urdf::Joint::FIXED ? "fixed" : j->type == urdf::Joint::PRISMATIC ? "prismatic" : "revolute")
                             .put("q", qi.count(nm(b)) ? qi[nm(b)] : 0).json());
        }
        for (int t = 0; t < (thorough() ? 40 : 8); ++t) fkRecord(out, J(js_(js)), f, n, dof, r);
    }
}

// ---------------------------------------------------------------- B06
static void interp(Out& out) {
    Rng r(106);
    const int n = thorough() ? 2000 : 400;
    for (int t = 0; t < n; ++t) {
        Eigen::Quaterniond qa = special(r), qb = special(r);
        if (t % 6 == 0) { Eigen::Vector3d ax(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
            qb = qa * Eigen::Quaterniond(Eigen::AngleAxisd(std::pow(10.0, r.u(-6, 0)), ax.normalized())); }
        if (t % 10 == 0) qb = qa;
        if (t % 14 == 0) qb.coeffs() = -qa.coeffs();
        if (t % 9 == 0) qb.coeffs() = -qb.coeffs();
        const int steps = t % 8 == 0 ? 1 : t % 40 == 7 ? r.i(30, 110) : r.i(1, 14), nj = r.i(0, 4);
        V1 a{r.u(-50, 50), r.u(-50, 50), r.u(-50, 50), qa.w(), qa.x(), qa.y(), qa.z()},
            b{r.u(-50, 50), r.u(-50, 50), r.u(-50, 50), qb.w(), qb.x(), qb.y(), qb.z()};
        out(Rec("se3").put("a", a).put("b", b).put("n", steps).put("res", interpolateSE3(a, b, steps)));
        V1 ja = a, jb = b;
        for (int k = 0; k < nj; ++k) ja.push_back(r.u(-PIX, PIX)), jb.push_back(r.u(-PIX, PIX));
        const int cs = t % 12 == 0 ? 0 : steps;
        out(Rec("compound").put("a", ja).put("b", jb).put("n", cs).put("res", interpolateCompoundSE3Rn(ja, jb, cs)));
        auto quats = [](const std::vector<Eigen::Quaterniond>& v) {
            V2 o;
            for (const auto& q : v) o.push_back(qvec(q));
            return o;
        };
        out(Rec("rot").put("fn", "slerp").put("a", qvec(qa)).put("b", qvec(qb)).put("n", steps).put("res", quats(interpolateSlerp(qa, qb, steps))));
        out(Rec("rot").put("fn", "axang").put("a", qvec(qa)).put("b", qvec(qb)).put("n", steps).put("res", quats(interpolateAngleAxis(qa, qb, steps))));
        V1 va, vb;
        for (int k = r.i(1, 6); k > 0; --k) va.push_back(r.u(-50, 50)), vb.push_back(r.p(0.1) ? va.back() : r.u(-50, 50));
        out(Rec("rn").put("a", va).put("b", vb).put("n", steps).put("res", interpolateRn(va, vb, steps)));
    }
}

// ---------------------------------------------------------------- B07
// half-width of an ellipse/ellipsoid in a direction
static double half(const SuperEllipse& e, double x, double y) {
    double c = cos(e.getAngle()), s = sin(e.getAngle());
    return std::hypot(e.getSemiAxis()[0] * (c * x + s * y), e.getSemiAxis()[1] * (c * y - s * x));
}
static double half(const SuperQuadrics& e, const Eigen::Vector3d& n) {
    Eigen::Vector3d u = e.getQuaternion().conjugate() * n;
    return Eigen::Vector3d(e.getSemiAxis()[0] * u(0), e.getSemiAxis()[1] * u(1), e.getSemiAxis()[2] * u(2)).norm();
}
static void sep(Out& out) {
    Rng r(107);
    const int n = thorough() ? 6000 : 900;
    for (int t = 0; t < n; ++t) {
        const double k = t % 5 == 0 ? 12 : t % 5 == 1 ? 0.2 : t % 10 == 2 ? 150 : t % 10 == 7 ? 0.005 : 1;
        double d = r.u(0, 12) * std::max(1.0, k);
        SuperEllipse a = ell(r, 0.5 * k, 5 * k, 10, 20), b = ell(r, 0.5, 5, 0, 20);
        double th = r.u(-PIX, PIX);
        if (t % 4 == 3) d = (half(a, cos(th), sin(th)) + half(b, cos(th), sin(th))) * r.u(0.7, 1.02);   // near contact
        b.setPosition({a.getPosition()[0] + d * cos(th), a.getPosition()[1] + d * sin(th)});
        if (t % 9 == 0) a.setSemiAxis({a.getSemiAxis()[0], a.getSemiAxis()[0]}), b.setSemiAxis({b.getSemiAxis()[0], b.getSemiAxis()[0]});
        if (t % 8 == 0) a.setAngle(0), b.setAngle(t % 16 ? PIX / 2 : 0);
        if (t % 12 == 0) b.setPosition({a.getPosition()[0] + d, a.getPosition()[1]});
        out(Rec("sep2").put("a", shape(a)).put("b", shape(b)).put("ab", isEllipseSeparated(a, b)).put("ba", isEllipseSeparated(b, a)));
    }
    for (int t = 0; t < n / 2; ++t) {
        const double k = t % 5 == 0 ? 8 : t % 5 == 1 ? 0.2 : t % 10 == 2 ? 100 : t % 10 == 7 ? 0.01 : 1;
        double d = r.u(0, 12) * std::max(1.0, k);
        SuperQuadrics a = eld(r, 0.5 * k, 5 * k, 10, 6), b = eld(r, 0.5, 5, 0, 6);
        Eigen::Vector3d u = Eigen::Vector3d(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)).normalized();
        if (t % 4 == 3) d = (half(a, u) + half(b, u)) * r.u(0.7, 1.02);
        u *= d;
        const auto& p = a.getPosition();
        b.setPosition({p[0] + u(0), p[1] + u(1), p[2] + u(2)});
        if (t % 9 == 0) { double x = a.getSemiAxis()[0], y = b.getSemiAxis()[0]; a.setSemiAxis({x, x, x}); b.setSemiAxis({y, y, y}); }
        if (t % 8 == 0) a.setQuaternion(Eigen::Quaterniond::Identity()), b.setQuaternion(Eigen::Quaterniond::Identity());
        if (t % 12 == 0) b.setPosition({p[0] + d, p[1], p[2]});
        out(Rec("sep3").put("a", shape(a)).put("b", shape(b)).put("ab", isEllipsoidSeparated(a, b)).put("ba", isEllipsoidSeparated(b, a)));
    }
    // mesh and primitive collision objects, kept while the bodies move
    const int m = thorough() ? 400 : 60;
    for (int t = 0; t < m / 2; ++t) {                 // small bodies deep inside a large one
        SuperQuadrics o({r.u(3, 8), r.u(3, 8), r.u(3, 8)}, {r.u(0.3, 1.7), r.u(0.3, 1.7)}, {r.u(-9, 9), r.u(-9, 9), r.u(-9, 9)}, rquat(r), r.i(7, 14));
        const double k = r.u(0.1, 0.6);
        SuperQuadrics e = eld(r, 0.5 * k, k, 0, 8);
        auto co = setCollisionObjectFromSQ(o);
        auto ce = setCollisionObjectFromSQ(e);
        V2 pts, es, os;
        for (const auto& v : getMeshFromSQ(o).vertices) pts.push_back({v(0), v(1), v(2)});
        std::vector<bool> ab, ba;
        for (int h = 0; h < 6; ++h) {
            e.setQuaternion(rquat(r));
            e.setPosition({o.getPosition()[0] + r.u(-1.2, 1.2), o.getPosition()[1] + r.u(-1.2, 1.2), o.getPosition()[2] + r.u(-1.2, 1.2)});
            es.push_back(shape(e));
            os.push_back(shape(o));
            ab.push_back(isCollision(e, ce, o, co));
            ba.push_back(isCollision(o, co, e, ce));
        }
        out(Rec("col3").put("o", os).put("e", es).put("round", false).put("pts", pts).put("ab", ab).put("ba", ba));
    }
    for (int t = 0; t < m; ++t) {
        const int num = r.i(8, 14);
        const bool round = t % 4 == 0;
        SuperQuadrics o({r.u(1, 6), r.u(1, 6), r.u(1, 6)}, round ? V1{1, 1} : t % 4 == 1 ? V1{1, r.u(0.2, 0.6)} : t % 4 == 2 ? V1{r.u(0.2, 0.6), 1}
                        : t % 8 == 3 ? V1{r.u(0.8, 1.2), r.u(0.8, 1.2)} : V1{r.u(0.3, 1.7), r.u(0.3, 1.7)},
                        {r.u(-9, 9), r.u(-9, 9), r.u(-9, 9)}, rquat(r), num);
        const bool nearly = t % 8 == 3;               // almost an ellipsoid
        if (nearly) o.setEpsilon(t % 16 == 3 ? V1{r.u(1.05, 1.2), r.u(1.05, 1.2)} : V1{r.u(0.8, 0.95), r.u(0.8, 0.95)});
        SuperQuadrics e = t % 5 == 1 ? eld(r, 0.05, 0.4, 0, 8) : eld(r, 1, 4, 0, 8);   // also deep inside the body
        auto co = setCollisionObjectFromSQ(o);
        auto ce = setCollisionObjectFromSQ(e);
        V2 pts;
        for (const auto& v : getMeshFromSQ(o).vertices) pts.push_back({v(0), v(1), v(2)});
        V2 es, os;
        std::vector<bool> ab, ba;
        for (int h = 0; h < 8; ++h) {
            Eigen::Vector3d u = Eigen::Vector3d(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)).normalized() * (h % 3 == 0 ? r.u(0, 1) : r.u(0, 11));
            const auto& p = o.getPosition();
            e.setQuaternion(rquat(r));
            if (h % 3 == 1 || nearly) {       // about to touch, seen from a corner or an edge of the body
                const auto& q = o.getQuaternion();
                Eigen::Vector3d w(r.i(-1, 1) * o.getSemiAxis()[0], r.i(-1, 1) * o.getSemiAxis()[1], r.i(-1, 1) * o.getSemiAxis()[2]);
                if (r.p(0.3) || w.norm() == 0) w = Eigen::Vector3d(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
                w.normalize();
                double far = 0;
                for (const auto& v : pts) far = std::max(far, w.dot(Eigen::Vector3d(v[0], v[1], v[2])));
                u = q * w;
                u *= (far + half(e, u)) * (nearly ? r.u(0.98, 1.03) : r.u(0.85, 1.03));
            }
            e.setPosition({p[0] + u(0), p[1] + u(1), p[2] + u(2)});
            if (h == 4) { o.setPosition({r.u(-9, 9), r.u(-9, 9), r.u(-9, 9)}); o.setQuaternion(rquat(r)); }
            es.push_back(shape(e));
            os.push_back(shape(o));
            ab.push_back(isCollision(e, ce, o, co));
            ba.push_back(isCollision(o, co, e, ce));
        }
        out(Rec("col3").put("o", os).put("e", es).put("round", round).put("pts", pts).put("ab", ab).put("ba", ba));
    }
    for (int t = 0; t < m; ++t) {
        const bool round = t % 4 == 0;
        SuperEllipse o({r.u(1, 6), r.u(1, 6)}, round ? 1 : t % 8 == 3 ? r.pick(V1{0.85, 1.15}) : r.u(0.3, 1.7), {r.u(-9, 9), r.u(-9, 9)}, r.u(-3, 3), 20);
        SuperEllipse e = t % 5 == 1 ? ell(r, 0.12, 0.4, 0, 20) : ell(r, 0.7, 4, 0, 20);
        auto co = setCollisionObjectFromSQ(o);
        auto ce = setCollisionObjectFromSQ(e);
        V2 es, os;
        std::vector<bool> ab, ba;
        for (int h = 0; h < 8; ++h) {
            double th = r.u(-PIX, PIX), d = h % 3 == 0 ? r.u(0, 1) : r.u(0, 11);
            const auto& p = o.getPosition();
            e.setAngle(r.u(-3, 3));
            if (h % 3 == 1) {       // about to touch, seen from a corner of the body
                const double a = o.getSemiAxis()[0] * (r.p(0.5) ? 1 : -1), b = o.getSemiAxis()[1] * (r.p(0.5) ? 1 : -1);
                th = r.p(0.3) ? r.u(-PIX, PIX) : std::atan2(b, a) + o.getAngle();
                double far = 0;
                const Eigen::MatrixXd m = o.getOriginShape();
                for (int k = 0; k < m.cols(); ++k) far = std::max(far, (m(0, k) - p[0]) * cos(th) + (m(1, k) - p[1]) * sin(th));
                d = (far + half(e, cos(th), sin(th))) * r.u(0.7, 1.03);
            }
            e.setPosition({p[0] + d * cos(th), p[1] + d * sin(th)});
            if (h == 4) { o.setPosition({r.u(-9, 9), r.u(-9, 9)}); o.setAngle(r.u(-3, 3)); }
            es.push_back(shape(e));
            os.push_back(shape(o));
            ab.push_back(isCollision(e, ce, o, co));
            ba.push_back(isCollision(o, co, e, ce));
        }
        out(Rec("col2").put("o", os).put("e", es).put("round", round).put("ab", ab).put("ba", ba));
    }
}

// ---------------------------------------------------------------- G01
static void points(Out& out) {
    Rng r(8600);
    for (int t = 0; t < (thorough() ? 3000 : 400); ++t) {
        std::vector<Simplex> all;
        if (t % 4 == 0) all = octa({r.u(0.1, 5), r.u(0.1, 5), r.u(0.1, 5)});
        else
            for (int k = r.p(0.05) ? 0 : r.i(1, 5); k > 0; --k) {
                Simplex s;
                for (int j = 0; j < 4; ++j) s.push_back({r.u(-5, 5), r.u(-5, 5), r.u(-3, 3)});
                all.push_back(s);
            }
        const PolyCSpace p = poly(all);
        std::vector<J> q;
        for (int k = 0; k < 8; ++k) {
            V1 x{r.u(-5, 5), r.u(-5, 5), r.u(-3, 3)};
            if (!all.empty() && k % 2) {              // near a simplex, in any proportion
                const auto& s = r.pick(all);
                x = mid(mid(s[0], s[1], r.u(-0.2, 1.2)), mid(s[2], s[3], r.u(-0.2, 1.2)), r.u(-0.2, 1.2));
            }
            q.push_back(Rec().put("x", x).put("in", isPtInPoly(p, x)).json());
        }
        out(Rec("poly").put("poly", all).put("q", q));
    }
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    Out out(argv[2]);
    const std::string m = argv[1];
    if (m == "mink") mink(out);
    else if (m == "enclose") enclose(out);
    else if (m == "sampled") sampled(out);
    else if (m == "rigid") rigid(out, argv[3]);
    else if (m == "urdf") urdfs(out, argv[3]);
    else if (m == "interp") interp(out);
    else if (m == "sep") sep(out);
    else if (m == "poly") points(out);
    else return 3;
    return 0;
}
