// Random spatial scenes.
#pragma once
#include "watch.hpp"
#include <memory>
struct Scene3 {
    SuperQuadrics base{{1, 1, 1}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), 5};
    std::vector<SuperQuadrics> links;
    std::unique_ptr<MultiBodyTree3D> robot;
    std::vector<SuperQuadrics> arena, obs;
    PlanningRequest req;
    V2 off;
    std::string urdf;
    std::vector<J> joints;
    int dof = 0;
};
static SuperQuadrics quadric(Rng& r, double lo, double hi, double x, double y, double z, int n) {
    const bool round = r.p(0.35);
    return SuperQuadrics({r.u(lo, hi), r.u(lo, hi), r.u(lo, hi)}, round ? V1{1, 1} : V1{r.u(0.4, 1.5), r.u(0.4, 1.5)},
                         {r.u(-x, x), r.u(-y, y), r.u(-z, z)}, r.p(0.2) ? Eigen::Quaterniond::Identity() : rquat(r), n);
}
static V1 randomConfig(Rng& r, const V1& lim, int dof) {
    const auto q = rquat(r);
    V1 c{r.u(lim[0], lim[1]), r.u(lim[2], lim[3]), r.u(lim[4], lim[5]), q.w(), q.x(), q.y(), q.z()};
    for (int k = 0; k < dof; ++k) c.push_back(r.u(-HALF_PI, HALF_PI));
    return c;
}
static std::string s17(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
static std::string nm(int b) { return b == 0 ? "base" : "body" + std::to_string(b); }
static void describe(Scene3& s, Rng& r, int n) {
    std::string xml = "<?xml version=\"1.0\"?>\n<robot name=\"r\">\n";
    for (int b = 0; b <= n; ++b) xml += "<link name=\"" + nm(b) + "\"/>\n";
    for (int b = 1; b <= n; ++b) {
        const int parent = r.p(0.8) ? b - 1 : 0;
        const bool fixed = b > 1 && r.p(0.15);
        V1 pos{r.u(-1.5, 1.5), r.u(-1.5, 1.5), r.u(0.5, 1.5)}, rpy{r.u(-3, 3), r.u(-1.5, 1.5), r.u(-3, 3)}, ax{0, 0, 0};
        ax[r.i(0, 2)] = 1;
        xml += "<joint name=\"j" + std::to_string(b) + "\" type=\"" + (fixed ? "fixed" : "revolute") + "\"><parent link=\"" + nm(parent) +
               "\"/><child link=\"" + nm(b) + "\"/><origin xyz=\"" + s17(pos[0]) + " " + s17(pos[1]) + " " + s17(pos[2]) + "\" rpy=\"" +
               s17(rpy[0]) + " " + s17(rpy[1]) + " " + s17(rpy[2]) + "\"/><axis xyz=\"" + s17(ax[0]) + " " + s17(ax[1]) + " " + s17(ax[2]) +
               "\"/><limit lower=\"-4\" upper=\"4\" effort=\"1\" velocity=\"1\"/></joint>\n";
        s.joints.push_back(Rec().put("parent", parent).put("pos", pos).put("rpy", rpy).put("axis", ax)
                               .put("type", fixed ? "fixed" : "revolute").put("q", fixed ? 0 : ++s.dof).json());
    }
    static int id = 0;
    s.urdf = envStr("SCRATCH", ".") + "/p" + std::to_string(id++) + ".urdf";
    std::ofstream(s.urdf) << xml << "</robot>\n";
}
// now and then, all of a scene elsewhere
static void away(Scene3& s, const Rng& r) {
    Rng q = aside(r, 32);
    if (!q.p(0.2)) return;
    const double d[3] = {q.u(-40, 40), q.u(-40, 40), q.u(-40, 40)};
    for (auto* l : {&s.arena, &s.obs})
        for (auto& b : *l) b.setPosition({b.getPosition()[0] + d[0], b.getPosition()[1] + d[1], b.getPosition()[2] + d[2]});
    for (int k = 0; k < 6; ++k) s.req.parameters.boundaryLimits[k] += d[k / 2];
    for (int k = 0; k < 3; ++k) s.req.start[k] += d[k], s.req.goal[k] += d[k];
}
static Scene3 scene3(Rng& r, bool moving = false, int maxLinks = 2, int maxObs = 3, int num = 9) {
    Scene3 s;
    const bool many = maxLinks >= 2 && r.p(0.15);
    const int nl = many ? r.i(3, 4) : moving ? r.i(1, 2) : r.i(0, maxLinks);
    if (many && maxObs >= 3) maxObs = 5;
    s.base = SuperQuadrics({r.u(0.5, 1.3), r.u(0.5, 1.3), r.u(0.5, 1.3)}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), num);
    Rng w = aside(r, 31);
    if (w.p(0.25)) {                                 // a robot that was somewhere before
        s.base.setPosition({w.u(-9, 9), w.u(-9, 9), w.u(-9, 9)});
        s.base.setQuaternion(rquat(w));
    }
    auto& p = s.req.parameters;
    const bool given = !moving && r.p(0.6);
    p.numSlice = r.i(1, 4);
    if (given) {
        std::vector<Eigen::Quaterniond> q;
        const int n = r.i(1, 5);
        for (int k = 0; k < n; ++k) q.push_back(k == 0 && r.p(0.3) ? Eigen::Quaterniond::Identity() : rquat(r));
        if (n > 1 && r.p(0.3)) q.back() = q.front() * Eigen::Quaterniond(Eigen::AngleAxisd(0.23, Eigen::Vector3d::UnitX()));
        s.base.setQuatSamples(q);
        if (r.p(0.3)) p.numSlice = n;
    }
    s.robot.reset(new MultiBodyTree3D(s.base));
    for (int k = 0; k < nl; ++k) {
        SuperQuadrics l({r.u(0.4, 0.9), r.u(0.4, 0.9), r.u(0.4, 0.9)}, {1, 1}, {r.u(-1.5, 1.5), r.u(-1.5, 1.5), r.u(-1.5, 1.5)}, rquat(r), num);
        s.links.push_back(l);
        const auto& q = l.getQuaternion();
        s.off.push_back({l.getPosition()[0], l.getPosition()[1], l.getPosition()[2], q.w(), q.x(), q.y(), q.z()});
        s.robot->addBody(l);
    }
    if (moving) describe(s, r, nl);
    const double A = r.u(12, 15), B = r.u(11, 13), C = r.u(10, 12);
    s.arena.push_back(SuperQuadrics({A, B, C}, {r.u(0.92, 1), r.u(0.92, 1)}, {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)},
                                    Eigen::Quaterniond(Eigen::AngleAxisd(r.u(-0.3, 0.3), Eigen::Vector3d(r.u(-1, 1), 1, 1).normalized())), num + 6));
    if (r.p(0.15)) s.arena.push_back(SuperQuadrics({A + 2, B + 1, C + 3}, {1, 1}, {r.u(-2, 2), r.u(-2, 2), 0}, Eigen::Quaterniond::Identity(), num + r.i(3, 6)));
    for (int k = r.i(0, maxObs); k > 0; --k) s.obs.push_back(quadric(r, 0.8, 4, 8, 8, 6, r.p(0.3) ? num + r.i(-2, 4) : num));
    p.boundaryLimits = {-A + r.u(2, 5), A - r.u(2, 5), -B + r.u(2, 5), B - r.u(2, 5), -C + r.u(0, 4), C - r.u(0, 4)};
    p.numLineX = r.i(2, 5);
    p.numLineY = r.i(2, 6);
    if (r.p(0.2)) {                                  // a flat channel: only some orientations fit
        const double h = r.u(0.9, 1.6);
        s.obs.clear();
        for (int k = -1; k <= 1; k += 2)
            s.obs.push_back(SuperQuadrics({20, 20, 5}, {r.u(0.5, 1), 1}, {0, 0, k * (5 + h)}, Eigen::Quaterniond::Identity(), num + 2));
        p.boundaryLimits[4] = -5 - h;
        p.boundaryLimits[5] = 5 + h;
    }
    p.numPoint = r.i(2, 5);
    if (r.p(0.3)) p.numSearchNeighbor = r.i(1, 4);
    if (r.p(0.3)) p.searchRadius = r.u(0.5, 3);
    s.req.isRobotRigid = !moving;
    s.req.start = randomConfig(r, p.boundaryLimits, s.dof);
    s.req.goal = randomConfig(r, p.boundaryLimits, s.dof);
    if (moving && r.p(0.3)) {                        // ends that differ in only some of their coordinates
        const bool turn = r.p(0.7);
        for (int k = 3; k < 7; ++k) if (turn) s.req.goal[k] = s.req.start[k];
        if (!turn) for (int k = 7; k < 7 + s.dof; ++k) s.req.goal[k] = s.req.start[k];
    }
    return s;
}
