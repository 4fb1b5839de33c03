INC = r'''#include "hrm/planners/ompl_interface/OMPL2D.h"
#include "hrm/planners/ompl_interface/OMPL3D.h"
#include "hrm/planners/ompl_interface/OMPL3DArticulated.h"
using namespace hrm::planners::ompl_interface;
'''
SEEDS = [
dict(id="e01-first-kind", property="E01",
 edits=[("src/planners/ompl_interface/OMPL2D.cpp", "        if (std::fabs(obstacle_.at(i).getEpsilon() - 1.0) < 1e-6) {", "        if (std::fabs(obstacle_.at(0).getEpsilon() - 1.0) < 1e-6) {")],
 needs="Obstacles of both kinds, elliptic first, and a robot at a corner of a box-like one",
 breaks="Box-like obstacles are checked as ellipses when the first obstacle is one, so overlapping states count as valid",
 demo=INC + r'''
struct A : OMPL2D { using OMPL2D::OMPL2D; using OMPL2D::isSeparated; };
int main() {
    MultiBodyTree2D r(SuperEllipse({0.3, 0.3}, 1, {0, 0}, 0, 30));
    const V lo{-10, -10}, hi{10, 10};
    A p(lo, hi, r, {SuperEllipse({12, 12}, 1, {0, 0}, 0, 30)}, {SuperEllipse({1, 1}, 1, {-5, 0}, 0, 30), SuperEllipse({2, 2}, 0.2, {5, 0}, 0, 30)});
    p.setup(0, 0);
    auto at = [&](double x, double y) {
        Eigen::Matrix3d g = Eigen::Matrix3d::Identity();
        g(0, 2) = x; g(1, 2) = y;
        r.robotTF(g);
        return p.isSeparated(r);
    };
    EXPECT(!at(-5, 0));
    EXPECT(at(0, 0));
    EXPECT(!at(5, 0.5));
    EXPECT(!at(5 + 1.7, 1.7));
    EXPECT(at(5 + 2.6, 2.6));
    END;
}
'''),
dict(id="e01-link-shape", property="E01",
 edits=[("src/planners/ompl_interface/OMPL3D.cpp", "            if (isCollision(robotAux.getLinks().at(j), objRobot_.at(j + 1),", "            if (isCollision(robotAux.getLinks().at(j), objRobot_.at(j),")],
 needs="A robot whose links differ in size from the body before them",
 breaks="Each link is checked with the shape of the body before it",
 demo=INC + r'''
struct A : OMPL3D { using OMPL3D::OMPL3D; using OMPL3D::isSeparated; };
int main() {
    MultiBodyTree3D r(ball(0.3));
    r.addBody(ball(1.5, {4, 0, 0}));
    const V lo{-20, -20, -20}, hi{20, 20, 20};
    A p(lo, hi, r, {ball(25)}, {ball(1)}, {});
    p.setup(0, 0);
    auto at = [&](double x) { r.robotTF(pose(Q::Identity(), {x, 0, 0})); return p.isSeparated(r); };
    EXPECT(!at(0));
    EXPECT(!at(-2));
    EXPECT(at(-1.45));
    EXPECT(!at(-6.2));
    EXPECT(at(-7));
    END;
}
'''),
dict(id="e02-late-solution", property="E02",
 edits=[("include/hrm/planners/ompl_interface/OMPLInterface-inl.h", "        if (solved && totalTime_ < maxTimeInSec) {", "        if (solved) {")],
 needs="A query the planner cannot connect within the time, for which it keeps an approximate path",
 breaks="A path that does not end at the goal is reported as the solution",
 demo=INC + r'''
int main() {
    MultiBodyTree2D r(SuperEllipse({0.5, 0.4}, 1, {0, 0}, 0, 30));
    const V lo{-10, -10}, hi{10, 10};
    OMPL2D p(lo, hi, r, {SuperEllipse({12, 12}, 1, {0, 0}, 0, 30)}, {SuperEllipse({1, 40}, 1, {0, 0}, 0, 30)});
    p.setup(2, 0);
    p.plan({-6, 0, 0}, {6, 0, 0}, 0.4);
    EXPECT(!p.isSolved());
    EXPECT(p.getSolutionPath().empty());
    END;
}
'''),
]
