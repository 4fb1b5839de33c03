// Random planar scenes.
#pragma once
#include "watch.hpp"
#include <memory>
static const double PIX = 3.14159265358979323846;

struct Scene2 {
    std::unique_ptr<MultiBodyTree2D> robot;
    std::vector<SuperEllipse> arena, obs;
    PlanningRequest req;
    double eps = 0;
};
static std::vector<V1> bodies(const MultiBodyTree2D& r) {
    std::vector<V1> v{shape(r.getBase())};
    for (const auto& l : r.getLinks()) v.push_back(shape(l));
    return v;
}
// the robot's bodies with its base at the reference pose
static std::vector<V1> reference(const MultiBodyTree2D& r) {
    auto v = bodies(r);
    v[0][3] = v[0][4] = v[0][5] = 0;
    return v;
}
// now and then, all of a scene elsewhere
static void away(Scene2& s, const Rng& r) {
    Rng q = aside(r, 22);
    if (!q.p(0.2)) return;
    const double d[2] = {q.u(-40, 40), q.u(-40, 40)};
    for (auto* l : {&s.arena, &s.obs})
        for (auto& b : *l) b.setPosition({b.getPosition()[0] + d[0], b.getPosition()[1] + d[1]});
    for (int k = 0; k < 4; ++k) s.req.parameters.boundaryLimits[k] += d[k / 2];
    for (int k = 0; k < 2; ++k) s.req.start[k] += d[k], s.req.goal[k] += d[k];
}
static Scene2 scene2(Rng& r, int maxLinks = 2, int maxObs = 4, int num = 36) {
    Scene2 s;
    if (maxLinks >= 2 && r.p(0.15)) maxLinks = 5, maxObs += 3;      // many bodies
    Rng q = aside(r, 21);
    SuperEllipse base({r.u(0.6, 2), r.u(0.6, 2)}, 1, {0, 0}, 0, num);
    if (q.p(0.25)) {                                                // a robot that was somewhere before
        base.setPosition({q.u(-9, 9), q.u(-9, 9)});
        base.setAngle(q.u(-3, 3));
    }
    s.robot.reset(new MultiBodyTree2D(base));
    for (int k = r.i(maxLinks > 2 ? 3 : 0, maxLinks); k > 0; --k)
        s.robot->addBody(SuperEllipse({r.u(0.5, 1.5), r.u(0.5, 1.5)}, 1, {r.u(-2.5, 2.5), r.u(-2.5, 2.5)}, r.u(-3, 3), num));
    const double A = r.u(16, 24), B = r.u(12, 16);
    s.arena.push_back(SuperEllipse({A, B}, r.u(0.85, 1), {r.u(-1, 1), r.u(-1, 1)}, r.u(-0.3, 0.3), 2 * num));
    if (r.p(0.25)) s.arena.push_back(SuperEllipse({A + 2, B + 1}, 1, {r.u(-3, 3), r.u(-2, 2)}, 0, 2 * num));
    double px = 0, py = 0;
    for (int k = r.i(0, maxObs); k > 0; --k) {
        if (r.p(0.75)) px = r.u(-14, 14), py = r.u(-10, 10);
        else px += r.u(-3, 3), py += r.u(-2, 2);
        s.obs.push_back(SuperEllipse({r.u(0.8, 5), r.u(0.8, 4)}, r.p(0.3) ? 1.0 : r.u(0.4, 1.5), {px, py}, r.u(-3.2, 3.2), num));
    }
    auto& p = s.req.parameters;
    p.boundaryLimits = {-A + r.u(0, 4), A - r.u(0, 4), -B + r.u(0, 3), B - r.u(0, 3)};
    if (r.p(0.2)) p.boundaryLimits = {-A / 2, A / 2 - 1, -B / 2, B / 2 - 1};
    p.numSlice = r.i(1, 6);
    p.numLineX = r.i(2, 6);
    p.numLineY = r.i(2, 11);
    p.numPoint = r.i(2, 7);
    if (r.p(0.15)) {                             // a channel in which only some headings fit
        const double h = r.u(0.9, 2.6), a = r.u(2, 3.5);
        s.robot.reset(new MultiBodyTree2D(SuperEllipse({a, r.u(0.6, 0.8)}, 1, {0, 0}, 0, num)));
        if (maxLinks > 0 && r.p(0.4)) s.robot->addBody(SuperEllipse({0.7, 0.5}, 1, {r.u(-2, 2), r.u(-0.5, 0.5)}, r.u(-3, 3), num));
        s.arena = {SuperEllipse({30, r.u(27, 30)}, 1, {r.u(-1, 1), 0}, 0, 2 * num)};
        s.obs.clear();
        for (int k = -1; k <= 1; k += 2) s.obs.push_back(SuperEllipse({30, 6}, r.u(0.4, 0.9), {r.u(-1, 1), k * (6 + h)}, 0, num));
        p.boundaryLimits = {-9, 9, -6 - h, 6 + h};
        p.numSlice = r.i(3, 8);
        p.numLineY = r.i(5, 11);
    }
    if (r.p(0.3)) p.numSearchNeighbor = r.i(1, 4);
    if (r.p(0.3)) p.searchRadius = r.u(0.3, 3);
    s.req.isRobotRigid = true;
    s.req.start = {r.u(-A, A) * 0.7, r.u(-B, B) * 0.7, r.u(-PIX, PIX)};
    s.req.goal = {r.u(-A, A) * 0.7, r.u(-B, B) * 0.7, r.u(-PIX, PIX)};
    return s;
}
