INC = r'''#include "hrm/planners/ompl_interface/OMPL2D.h"
#include "hrm/planners/ompl_interface/OMPL3D.h"
using namespace hrm::planners::ompl_interface;
'''
SEEDS = [
dict(id="e03-bridge-sampler", property="E03",
 edits=[("include/hrm/planners/ompl_interface/OMPLInterface-inl.h", "                return std::make_shared<ob::BridgeTestValidStateSampler>(si);",
         "                auto vss = std::make_shared<ob::GaussianValidStateSampler>(si);\n                vss->setNrAttempts(100);\n                return vss;")],
 needs="A setup with the bridge-test sampler",
 breaks="Valid states are drawn near obstacles by another sampler than the one asked for",
 demo=INC + r'''
struct A : OMPL2D { using OMPL2D::OMPL2D; using OMPL2D::ss_; };
int main() {
    MultiBodyTree2D r(SuperEllipse({0.5, 0.4}, 1, {0, 0}, 0, 30));
    const V lo{-10, -10}, hi{10, 10};
    A p(lo, hi, r, {SuperEllipse({12, 12}, 1, {0, 0}, 0, 30)}, {SuperEllipse({1, 2}, 1, {0, 0}, 0, 30)});
    std::vector<std::string> seen;
    for (int k = 0; k < 5; ++k) {
        p.setup(0, k);
        seen.push_back(p.ss_->getSpaceInformation()->allocValidStateSampler()->getName());
    }
    EXPECT(std::set<std::string>(seen.begin(), seen.end()).size() == 5);
    EXPECT(seen[4] == "bridge_test");
    END;
}
'''),
dict(id="d05-join-once", property="D05",
 edits=[("src/planners/HRM2D.cpp", "                // Continue from where it pauses\n                startIdExist = m1;\n                break;", "                // Continue after the one found\n                startIdExist = m1 + 1;\n                break;")],
 needs="A refined roadmap, in which several new vertices are next to one earlier vertex",
 breaks="Only one new vertex is joined to each earlier one, so new lines next to an old one stay apart from it",
 demo=r'''
struct P2 : HRM2D {
    using HRM2D::HRM2D;
    using HRM2D::res_; using HRM2D::refineExistRoadmap;
    long before = 0, after = 0;
    void connectExistSlice(const Index s) override {
        before = long(res_.graphStructure.edge.size());
        HRM2D::connectExistSlice(s);
        after = long(res_.graphStructure.edge.size());
    }
    std::vector<Vertex> getNearestNeighborsOnGraph(const V& v, const Index k, const double d) override { return {}; }
};
int main() {
    // one slice in an empty square: two lines, then four
    PlanningRequest q;
    q.parameters.numSlice = 1;
    q.parameters.numLineY = 2;
    q.parameters.boundaryLimits = {-5, 5, -5, 5};
    q.start = {0, 0, 0};
    q.goal = {1, 1, 0};
    P2 p(MultiBodyTree2D(SuperEllipse({0.5, 0.4}, 1, {0, 0}, 0, 30)), {SuperEllipse({20, 20}, 1, {0, 0}, 0, 60)}, {}, q);
    p.plan(0.0);
    const auto n = p.res_.graphStructure.vertex.size();
    EXPECT(n == 2);
    p.refineExistRoadmap(0.0);
    EXPECT(p.res_.graphStructure.vertex.size() == 6);
    // all four new lines are next to an old one
    EXPECT(p.after - p.before == 4);
    END;
}
'''),
dict(id="c06-one-detour", property="C06",
 edits=[("include/hrm/planners/HighwayRoadMap-inl.h", "    } else if (isSameSliceTransitionFree(v1, vNew2) &&\n               isSameSliceTransitionFree(vNew2, v2)) {", "    } else if (isSameSliceTransitionFree(v1, vNew2) &&\n               isSameSliceTransitionFree(vNew1, v2)) {")],
 needs="Neighbouring lines on one of which an obstacle lies between the heights of the two vertices, so that the way around it begins along the other line",
 breaks="Such vertices are left apart although the way over the other line is free",
 demo=r'''
int main() {
    const Q q = Q::Identity();
    SuperQuadrics b = ball(0.2);
    b.setQuatSamples({q});
    MultiBodyTree3D r(b);
    auto req = request3(1, 2, 2, 10, {0, 0, 0, 1, 0, 0, 0}, {1, 0, 0, 1, 0, 0, 0});
    std::vector<SuperQuadrics> obs{ball(1, {0, 0, 2}, 20), ball(0.3, {0.3, 0, 4.2}, 20)};
    P3 p(r, {ball(30, {0, 0, 0}, 20)}, obs, req);
    p.plan(0.0);
    auto& g = p.res_.graphStructure;
    const auto n = g.vertex.size(), m = g.edge.size();
    // above the first vertex there are the obstacles
    g.vertex.push_back({0, 0, 0, 1, 0, 0, 0});
    g.vertex.push_back({1.5, 0, 4, 1, 0, 0, 0});
    EXPECT(!p.isSameSliceTransitionFree(g.vertex[n], g.vertex[n + 1]));
    p.bridgeVertex(n, n + 1);
    EXPECT(g.vertex.size() == n + 3);
    EXPECT(g.edge.size() == m + 2);
    if (g.vertex.size() == n + 3) EXPECT(near(g.vertex[n + 2], {1.5, 0, 0, 1, 0, 0, 0}));
    END;
}
'''),
dict(id="g01-first-vertex", property="G01",
 edits=[("src/planners/HRM2DKC.cpp", "            n12 = 0;\n", "            n12 = vertexIdx_.at(0).slice > 1 ? 1 : 0;\n")],
 needs="The last slice, and motions that lead from it only to the very first vertex of the roadmap",
 breaks="The first vertex is never joined to the last slice",
 demo=r'''
template <class Tag, typename Tag::type M> struct Open { friend typename Tag::type opened(Tag) { return M; } };
struct Poly { typedef PolyCSpace HRM2DKC::*type; friend type opened(Poly); };
template struct Open<Poly, &HRM2DKC::polyhedronVertex_>;
int main() {
    PlanningRequest q;
    q.parameters.numSlice = 2;                        // headings -pi and pi: the same vertices
    q.parameters.numLineY = 5;
    q.parameters.numPoint = 50;
    q.parameters.boundaryLimits = {-10, 10, -10, 10};
    q.start = {0, 0, 0};
    q.goal = {1, 1, 0};
    HRM2DKC p(MultiBodyTree2D(SuperEllipse({1, 0.5}, 1, {0, 0}, 0, 30)), {SuperEllipse({30, 30}, 1, {0, 0}, 0, 60)}, {}, q);
    // motions that turn on the spot, as two simplices
    PolyCSpace c;
    const double a = 0.2, h = 8;
    const double x[4][2] = {{a, 0}, {0, a}, {-a, 0}, {0, -a}};
    for (int up = -1; up <= 1; up += 2)
        for (int k = 0; k < 4; ++k) {
            Eigen::Matrix4d m;
            m << 0, x[k][0], x[(k + 1) % 4][0], 0,  0, x[k][1], x[(k + 1) % 4][1], 0,  0, 0, 0, up * h,  1, 1, 1, 1;
            for (int i = 0; i < 4; ++i) c.vertex.push_back({m(0, i), m(1, i), m(2, i)});
            const Eigen::Matrix4d inv = m.inverse();
            c.matrixInverse.emplace_back(inv.data(), inv.data() + 16);
        }
    p.*opened(Poly()) = c;
    p.plan(0.0);
    const auto& g = p.getPlanningResult().graphStructure;
    const size_t kept = 10;
    EXPECT(g.vertex.size() >= kept);
    bool first = false, last = false;                  // vertex 0 and its like in the last slice are joined in the second turn
    std::vector<std::vector<size_t>> at(g.vertex.size());
    for (const auto& e : g.edge) {
        at[e.first].push_back(e.second);
        at[e.second].push_back(e.first);
    }
    int joined = 0;
    for (size_t u = kept; u < g.vertex.size(); ++u)
        if (at[u].size() == 2 && std::min(at[u][0], at[u][1]) == 0) ++joined;
    EXPECT(joined == 2);                               // from slice 0 to 1, and from 1 to 0
    END;
}
'''),
dict(id="c04-link-turn", property="C04",
 edits=[("src/planners/HRM3D.cpp", "                     Eigen::Quaterniond(q2.toRotationMatrix() * rotLink),", "                     Eigen::Quaterniond(rotLink * q2.toRotationMatrix()),")],
 needs="A link that is turned relative to the base, about another axis than the base between the slices",
 breaks="The ellipsoid that stands for the turning link does not contain it, so that motions between slices may pass through obstacles",
 demo=r'''
int main() {
    SuperQuadrics b = ball(0.3);
    const Q q1 = axis(0, 0, 1, 0.2), q2 = axis(0, 0, 1, 1.1), t = axis(1, 0, 0, 1.2);
    b.setQuatSamples({q1, q2});
    MultiBodyTree3D r(b);
    r.addBody(SuperQuadrics({2, 0.3, 0.4}, {1, 1}, {1, 0, 0}, t, 10));
    auto req = request3(2, 2, 2, 10, {0, 0, 0, 1, 0, 0, 0}, {1, 0, 0, 1, 0, 0, 0});
    P3 p(r, {ball(30)}, {ball(1)}, req);
    p.plan(0.0);
    EXPECT(p.tfe_.size() == 2);
    const SuperQuadrics e = p.tfe_[1];
    double worst = 0;
    for (const Q& q : {q1, q2})
        for (int k = 0; k < 6; ++k) {
            Eigen::Vector3d x(0, 0, 0);
            x(k / 2) = (k % 2 ? -1 : 1) * V{2, 0.3, 0.4}[k / 2];
            x = (q * t) * x;
            worst = std::max(worst, inside(e, x + Eigen::Vector3d(e.getPosition().data())));
        }
    EXPECT(worst <= 1.0001);
    END;
}
'''),
dict(id="d06-one-sided", property="D06",
 edits=[("src/planners/ProbHRM3D.cpp", "rng.uniformReal(-maxJointAngle_, maxJointAngle_)", "rng.gaussian(0.0, 0.25 * maxJointAngle_)")],
 needs="Many random slices",
 breaks="Joint angles are drawn from a narrow distribution around zero and now and then outside of the joint range",
 demo=r'''
struct P : ProbHRM3D {
    using ProbHRM3D::ProbHRM3D;
    using ProbHRM3D::sampleOrientations; using ProbHRM3D::param_; using ProbHRM3D::v_;
};
int main() {
    MultiBodyTree3D r(ball(0.5));
    r.addBody(ball(0.4));
    P p(r, urdf(1), {ball(30)}, {ball(1)}, request3(2, 2, 2, 10, {0, 0, 0, 1, 0, 0, 0, 0.1}, {1, 0, 0, 1, 0, 0, 0, 0.2}));
    p.param_.numSlice = 2;
    int far = 0, out = 0;
    for (int k = 0; k < 2000; ++k) {
        p.sampleOrientations();
        const double a = std::fabs(p.v_.back().back());
        far += a > 1;
        out += a > 1.5708;
    }
    EXPECT(out == 0);
    EXPECT(far > 400);
    END;
}
'''),
dict(id="b03-one-face", property="B03",
 edits=[("src/geometry/MeshGenerator.cpp", "            res.triangles.emplace_back(vertexIdx[cit->vertex(0)],\n                                       vertexIdx[cit->vertex(1)],\n                                       vertexIdx[cit->vertex(3)]);\n", "            // each face but those shared with the next cell\n            if (std::next(cit) == cdone || cit->vertex(3) != std::next(cit)->vertex(3)) {\n                res.triangles.emplace_back(vertexIdx[cit->vertex(0)],\n                                           vertexIdx[cit->vertex(1)],\n                                           vertexIdx[cit->vertex(3)]);\n            }\n")],
 needs="A collision mesh of a body; the missing triangles lie anywhere on its surface",
 breaks="The mesh used for collision checks has holes",
 demo=r'''
int main() {
    const SuperQuadrics s({2, 1, 1.5}, {0.7, 1.2}, {0, 0, 0}, Q::Identity(), 10);
    const Mesh m = getMeshFromSQ(s);
    // from any direction, a ray from the middle leaves through a triangle at the boundary
    int holes = 0;
    for (int a = 0; a < 30; ++a)
        for (int b = 1; b < 30; ++b) {
            const double u = a * 0.2097 + 0.013, w = -1.5 + b * 0.1007;
            const Eigen::Vector3d d(std::cos(w) * std::cos(u), std::cos(w) * std::sin(u), std::sin(w));
            double top = -1e300;
            for (const auto& v : m.vertices) top = std::max(top, v.dot(d));
            bool seen = false;
            double reach = -1;
            for (const auto& t : m.triangles) {
                const Eigen::Vector3d p = m.vertices[t[0]], e1 = m.vertices[t[1]] - p, e2 = m.vertices[t[2]] - p;
                const Eigen::Vector3d h = d.cross(e2);
                const double det = e1.dot(h);
                if (std::fabs(det) < 1e-14) continue;
                const double f = (-p).dot(h) / det;
                const Eigen::Vector3d g = (-p).cross(e1);
                const double k = d.dot(g) / det, s0 = e2.dot(g) / det;
                if (f >= -1e-9 && k >= -1e-9 && f + k <= 1 + 1e-9) reach = std::max(reach, s0);
            }
            // the same for the hull of the points: no triangle lies farther in than the body
            const Eigen::Vector3d x = reach * d;
            double q = std::pow(std::pow(std::fabs(x(0) / 2), 2 / 1.2) + std::pow(std::fabs(x(1) / 1), 2 / 1.2), 1.2 / 0.7) + std::pow(std::fabs(x(2) / 1.5), 2 / 0.7);
            holes += reach < 0 || q < 0.6;
        }
    EXPECT(holes == 0);
    END;
}
'''),
dict(id="a02-facing-last", property="A02",
 edits=[("include/hrm/datastructure/FreeSpace-inl.h", "                    enhanced.xU[i + 1].push_back(enhanced.xU[i][j1]);\n                    enhanced.xL[i + 1].push_back(enhanced.xU[i][j1]);\n                    enhanced.xM[i + 1].push_back(enhanced.xU[i][j1]);\n", "                    // one point for each segment is enough\n                    if (enhanced.xM[i + 1].size() == segment_.xM[i + 1].size()) {\n                        enhanced.xU[i + 1].push_back(enhanced.xU[i][j1]);\n                        enhanced.xL[i + 1].push_back(enhanced.xU[i][j1]);\n                        enhanced.xM[i + 1].push_back(enhanced.xU[i][j1]);\n                    }\n")],
 needs="A long free segment above two short ones, both of which end before its middle",
 breaks="No vertex of the long segment is above the second short one, so the two cannot be joined straight",
 demo=r'''
int main() {
    MultiBodyTree2D r(SuperEllipse({1, 1}, 1, {0, 0}, 0, 10));
    const std::vector<SuperEllipse> a{SuperEllipse({30, 30}, 1, {0, 0}, 0, 10)};
    std::vector<SuperEllipse> o(2, SuperEllipse({1, 1}, 1, {0, 0}, 0, 10));
    auto box = [](double x0, double y0, double x1, double y1) {
        Eigen::MatrixXd m(2, 5);
        m << x0, x1, x1, x0, x0, y0, y0, y1, y1, y0;
        return m;
    };
    BoundaryInfo b;
    b.arena = {box(-20, -20, 20, 20)};
    // below: free from -10 to -8, from -6 to -4; above: free from -10 to 10
    b.obstacle = {box(-8, -5, -6, 0.5), box(-4, -5, 15, 0.5)};
    FreeSpace2D f(r, a, o);
    f.setup(2, -10, 10);
    f.setCSpaceBoundary(b);
    f.computeIntersectionInterval({{0, 1}});
    f.computeFreeSegment({0, 1});
    const FreeSegment2D s = f.getFreeSegment();
    auto has = [](const V& v, double lo, double hi) {
        for (double x : v)
            if (lo - 1e-9 <= x && x <= hi + 1e-9) return true;
        return false;
    };
    EXPECT(s.xM.size() == 2);
    EXPECT(has(s.xM[0], -10, -8) && has(s.xM[0], -6, -4));
    EXPECT(has(s.xM[1], -10, -8));
    EXPECT(has(s.xM[1], -6, -4));
    END;
}
'''),
dict(id="e03-time-of-all", property="E03",
 edits=[("include/hrm/planners/ompl_interface/OMPLInterface-inl.h", "        totalTime_ = ss_->getLastPlanComputationTime();\n", "        const double lastTime = ss_->getLastPlanComputationTime();\n        totalTime_ = std::max(totalTime_, lastTime);\n"),
        ("include/hrm/planners/ompl_interface/OMPLInterface-inl.h", "if (solved && totalTime_ < maxTimeInSec)", "if (solved && lastTime < maxTimeInSec)")],
 needs="A query that takes long, and then one that takes shorter on the same planner in space",
 breaks="The reported planning time is that of an earlier query",
 demo=INC + r'''
#include <chrono>
int main() {
    MultiBodyTree3D r(ball(0.5));
    const V lo{-8, -8, -8}, hi{8, 8, 8};
    // a wall from side to side
    const std::vector<SuperQuadrics> arena{ball(40)}, wall{SuperQuadrics({2, 14, 14}, {0.2, 0.2}, {0, 0, 0}, Q::Identity(), 20)};
    OMPL3D p(lo, hi, r, arena, wall, {getMeshFromSQ(wall[0])});
    p.setup(2, 0);
    const V a{-6, 0, 0, 1, 0, 0, 0}, b{-6.1, 0, 0, 1, 0, 0, 0}, c{6, 0, 0, 1, 0, 0, 0};
    int late = 0;
    for (int k = 0; k < 4; ++k) {
        const auto then = std::chrono::steady_clock::now();
        p.plan(a, k % 2 ? b : c, 0.8);
        const double spent = std::chrono::duration<double>(std::chrono::steady_clock::now() - then).count();
        EXPECT(p.isSolved() == (k % 2 == 1));
        late += p.getPlanningTime() > spent + 1e-4;
    }
    EXPECT(late == 0);
    END;
}
'''),
dict(id="d04-round-total", property="D04",
 edits=[("include/hrm/planners/HighwayRoadMap-inl.h", "        if (res_.solved || res_.planningTime.totalTime > timeLim) {\n            return;\n        }\n    }\n", "        if (res_.solved || roundTime > timeLim) {\n            return;\n        }\n    }\n"),
        ("include/hrm/planners/HighwayRoadMap-inl.h", "        res_.planningTime.totalTime =\n            res_.planningTime.buildTime + res_.planningTime.searchTime;\n\n        if (", "        res_.planningTime.totalTime =\n            res_.planningTime.buildTime + res_.planningTime.searchTime;\n        const double roundTime =\n            res_.planningTime.totalTime - timeBefore;\n\n        if ("),
        ("include/hrm/planners/HighwayRoadMap-inl.h", "    param_.numLineX *= 2;\n    param_.numLineY *= 2;\n", "    param_.numLineX *= 2;\n    param_.numLineY *= 2;\n    const double timeBefore = res_.planningTime.totalTime;\n")],
 needs="An unsolved plan whose time runs out in the middle of a refinement round",
 breaks="The time of the earlier rounds is not counted, and slices are refined after the time has run out",
 demo=r'''
#include <chrono>
#include <thread>
struct P2 : HRM2D {
    using HRM2D::HRM2D;
    int after = 0, n = 0;
    double limit = 0;
    void constructOneSlice(const Index s) override {
        ++n;
        after += res_.planningTime.totalTime > limit;
        HRM2D::constructOneSlice(s);
        std::this_thread::sleep_for(std::chrono::milliseconds(10));
    }
    std::vector<Vertex> getNearestNeighborsOnGraph(const V& v, const Index k, const double d) override { return {}; }
};
int main() {
    PlanningRequest q;
    q.parameters.numSlice = 6;
    q.parameters.numLineY = 2;
    q.parameters.boundaryLimits = {-5, 5, -5, 5};
    q.start = {0, 0, 0};
    q.goal = {1, 1, 0};
    P2 p(MultiBodyTree2D(SuperEllipse({0.5, 0.4}, 1, {0, 0}, 0, 30)), {SuperEllipse({20, 20}, 1, {0, 0}, 0, 60)}, {}, q);
    p.limit = 0.08;
    p.plan(p.limit);
    EXPECT(p.n >= 6);
    EXPECT(p.after == 0);
    END;
}
'''),
dict(id="d02-near-slices", property="D02",
 edits=[("src/planners/HRM3D.cpp", "                    res_.graphStructure.vertex[i][6])) < 1e-6) {", "                    res_.graphStructure.vertex[i][6])) < quatTol) {"),
        ("src/planners/HRM3D.cpp", "    // Find the close vertex within a range (relative to the size of sweep line\n    // gaps) at each C-slice\n", "    // Find the close vertex within a range (relative to the size of sweep line\n    // gaps) at each C-slice\n    const double quatTol = quatList.size() > 2 ? 1e-2 : 1e-6;\n")],
 needs="Three or more C-slices around the query, two of which have nearly the same orientation",
 breaks="A slice contributes the closest vertex of another slice instead of its own",
 demo=r'''
int main() {
    SuperQuadrics b = ball(0.5);
    b.setSemiAxis({0.5, 0.8, 0.3});
    const std::vector<Q> q{axis(0, 0, 1, 0.2), axis(0, 0, 1, 0.205), axis(0, 0, 1, 0.5)};
    b.setQuatSamples(q);
    MultiBodyTree3D r(b);
    auto req = request3(3, 3, 3, 10, {0, 0, 0, 1, 0, 0, 0}, {1, 0, 0, 1, 0, 0, 0});
    struct A : P3 { using P3::P3; using P3::res_; using P3::getNearestNeighborsOnGraph; };
    A p(r, {ball(30)}, {ball(1)}, req);
    p.plan(0.0);
    const auto& v = p.res_.graphStructure.vertex;
    for (size_t k = 0; k < v.size(); ++k) {
        const auto n = p.getNearestNeighborsOnGraph(v[k], 5, 3.0);
        // one of each slice
        std::set<int> of;
        for (auto i : n)
            for (int s = 0; s < 3; ++s)
                if (q[s].angularDistance(Q(v[i][3], v[i][4], v[i][5], v[i][6])) < 1e-6) of.insert(s);
        EXPECT(of.size() == 3);
    }
    END;
}
'''),
]
