SEEDS = [
dict(id="a02-stale-line", property="A02",
 edits=[("src/datastructure/FreeSpace2D.cpp", "            if (intersectPointObstacle.empty()) {\n                intersect_.obstacleLow.at(i).at(j) = NAN;\n                intersect_.obstacleUpp.at(i).at(j) = NAN;\n            } else {",
         "            if (!intersectPointObstacle.empty()) {")],
 needs="A sweep line that crosses an obstacle boundary in one slice and misses it in a later one",
 breaks="The interval of the earlier slice stays blocked on the line, which loses free segments",
 demo=r'''
static double freeLength(FreeSpace2D& f, double t, MultiBodyTree2D r, const V& ty) {
    Eigen::Matrix3d g = Eigen::Matrix3d::Identity();
    g.topLeftCorner(2, 2) = Eigen::Rotation2Dd(t).toRotationMatrix();
    r.robotTF(g);
    f.setRobot(r);
    f.computeCSpaceBoundary();
    f.computeIntersectionInterval({ty});
    f.computeFreeSegment(ty);
    double s = 0;
    for (size_t i = 0; i < ty.size(); ++i)
        for (size_t j = 0; j < f.getFreeSegment().xL[i].size(); ++j) s += f.getFreeSegment().xU[i][j] - f.getFreeSegment().xL[i][j];
    return s;
}
int main() {
    MultiBodyTree2D r(SuperEllipse({2, 0.3}, 1, {0, 0}, 0, 40));
    std::vector<SuperEllipse> arena{SuperEllipse({20, 15}, 1, {0, 0}, 0, 60)}, obs{SuperEllipse({2, 2}, 1, {1, 0}, 0, 40)};
    const V ty{-6, -3, 0, 3, 6};
    FreeSpace2D a(r, arena, obs), b(r, arena, obs);
    a.setup(ty.size(), -10, 10);
    b.setup(ty.size(), -10, 10);
    freeLength(a, PI / 2, r, ty);
    EXPECT(near(freeLength(a, 0, r, ty), freeLength(b, 0, r, ty)));
    END;
}
'''),
dict(id="a02-outside-enhanced", property="A02",
 edits=[("include/hrm/datastructure/FreeSpace-inl.h", "                           enhanced.xL[i + 1][j2] <= enhanced.xU[i][j1]) {", "                           enhanced.xL[i + 1][j2] <= enhanced.xM[i + 1][j2]) {")],
 needs="A free segment that begins to the right of the end of a segment on the line below",
 breaks="A vertex coordinate is generated outside every free segment of its line, inside an obstacle or outside the arena",
 demo=r'''
int main() {
    MultiBodyTree2D r(SuperEllipse({0.2, 0.2}, 1, {0, 0}, 0, 40));
    const std::vector<SuperEllipse> arena{SuperEllipse({20, 15}, 1, {0, 0}, 0, 60)};
    const std::vector<SuperEllipse> obs{SuperEllipse({3, 1}, 1, {5, 0}, 0, 60), SuperEllipse({3, 1}, 1, {3, 3}, 0, 60)};
    FreeSpace2D f(r, arena, obs);
    f.setup(3, -9, 9);
    f.computeCSpaceBoundary();
    const V ty{0, 3, 6};
    f.computeIntersectionInterval({ty});
    f.computeFreeSegment(ty);
    const auto s = f.getFreeSegment();
    EXPECT(s.xM.size() == 3);
    for (double x : s.xM[0]) EXPECT(x <= 1.81 || x >= 8.19);
    for (double x : s.xM[1]) EXPECT(x <= -0.19 || x >= 6.19);
    END;
}
'''),
dict(id="c01-base-arena", property="C01",
 edits=[("include/hrm/datastructure/FreeSpace-inl.h", "        auxBoundary = robot_.minkSum(arenaPart, -1);\n        for (const auto& boundary : auxBoundary) {\n            cSpaceBoundary_.arena.push_back(boundary);\n        }\n",
         "        // links are kept inside together with the base\n        cSpaceBoundary_.arena.push_back(robot_.minkSum(arenaPart, -1).front());\n")],
 needs="A robot with links near the arena's wall",
 breaks="C-slices lack the arena boundaries of the links, which may then stick out of the arena",
 demo=r'''
struct A : HRM2D { using HRM2D::HRM2D; };
int main() {
    MultiBodyTree2D r(SuperEllipse({1, 0.5}, 1, {0, 0}, 0, 30));
    r.addBody(SuperEllipse({1, 0.5}, 1, {3, 0}, 0.3, 30));
    PlanningRequest q;
    q.parameters.numSlice = 4;
    q.parameters.numLineY = 8;
    q.parameters.boundaryLimits = {-10, 10, -8, 8};
    q.start = {-5, 0, 0};
    q.goal = {5, 0, 0};
    A p(r, {SuperEllipse({12, 9}, 0.8, {0, 0}, 0, 60)}, {SuperEllipse({1, 2}, 1, {0, 0}, 0, 30)}, q);
    p.plan(0.0);
    EXPECT(p.getCSpaceBoundary().size() == 4);
    for (const auto& b : p.getCSpaceBoundary()) { EXPECT(b.arena.size() == 2); EXPECT(b.obstacle.size() == 2); }
    END;
}
'''),
dict(id="c01-first-offset", property="C01",
 edits=[("src/datastructure/MultiBodyTree3D.cpp", "                          Point3D(link_.at(i).getPosition().data()));", "                          Point3D(link_.at(k < 0 ? 0 : i).getPosition().data()));")],
 needs="A spatial robot with two or more links and an arena",
 breaks="The arena boundaries of the second and later links are shifted by the first link's offset",
 demo=r'''
int main() {
    MultiBodyTree3D r(ball(0.5));
    r.addBody(ball(0.5, {0, 0, 2}));
    r.addBody(ball(0.5, {3, 0, 0}));
    const auto m = r.minkSum(ball(8), -1);
    EXPECT(m.size() == 3);
    for (int b = 0; b < 3; ++b) {
        const Eigen::Vector3d o = b == 0 ? Eigen::Vector3d(0, 0, 0) : b == 1 ? Eigen::Vector3d(0, 0, 2) : Eigen::Vector3d(3, 0, 0);
        double worst = 0;
        for (int i = 0; i < m[b].cols(); ++i) worst = std::max(worst, std::fabs((m[b].col(i) + o).norm() - 7.5));
        EXPECT(worst < 1e-3);
    }
    END;
}
'''),
dict(id="c02-wide-lines", property="C02",
 edits=[("src/planners/HRM3D.cpp", "    const double dy = (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /\n                      static_cast<double>(param_.numLineY - 1);",
         "    const double dy = (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /\n                      static_cast<double>(param_.numLineX - 1);")],
 needs="Different numbers of sweep lines in x and y",
 breaks="Sweep lines in y leave the planning limits when there are more of them than in x",
 demo=r'''
int main() {
    MultiBodyTree3D r(ball(0.4));
    P3 p(r, {ball(30, {0, 0, 0}, 20)}, {}, request3(1, 3, 6, 5, V{-4, 0, 0, 1, 0, 0, 0}, V{4, 0, 0, 1, 0, 0, 0}));
    p.sampleOrientations();
    p.constructOneSlice(0);
    EXPECT(p.res_.graphStructure.vertex.size() == 18);
    for (const auto& v : p.res_.graphStructure.vertex) EXPECT(std::fabs(v[1]) < 5 + 1e-9);
    END;
}
'''),
dict(id="c03-bridge-leg", property="C03",
 edits=[("include/hrm/planners/HighwayRoadMap-inl.h", "               isSameSliceTransitionFree(vNew2, v2)) {", "               isSameSliceTransitionFree(vNew2, v1)) {")],
 needs="Two vertices of neighbouring lines whose direct motion and first detour are blocked, and whose second detour is blocked on its second leg only",
 breaks="A bridge vertex is joined to a vertex it cannot reach without a collision",
 demo=r'''
int main() {
    MultiBodyTree3D r(ball(0.2));
    P3 p(r, {ball(30)}, {ball(0.8, {0, 1.5, 3}, 15), ball(0.8, {0, 3, 1.5}, 15)},
         request3(1, 2, 2, 10, V{-5, 0, 0, 1, 0, 0, 0}, V{5, 0, 0, 1, 0, 0, 0}));
    p.sampleOrientations();
    p.constructOneSlice(0);
    auto& g = p.res_.graphStructure;
    const Q q = p.q_[0];
    for (int k = 0; k < 2; ++k) {
        const size_t n = g.vertex.size(), e = g.edge.size();
        g.vertex.push_back({0, 0, 0, q.w(), q.x(), q.y(), q.z()});
        g.vertex.push_back({0, 3, 3, q.w(), q.x(), q.y(), q.z()});
        p.bridgeVertex(k ? n : n + 1, k ? n + 1 : n);
        EXPECT(g.edge.size() == e);
    }
    END;
}
'''),
dict(id="c03-one-crossing", property="C03",
 edits=[("src/planners/HRM3D.cpp", "                isIntersect = ((s0 < 0) || (s1 < 0));", "                isIntersect = ((s0 < 0) && (s1 < 0 || s0 * s1 == 0));")],
 needs="An edge one end of which lies inside a C-obstacle of another body (a bridge vertex or an enhanced vertex)",
 breaks="A motion that enters a C-obstacle without leaving it again is accepted",
 demo=r'''
int main() {
    MultiBodyTree3D r(ball(0.2));
    P3 p(r, {ball(30)}, {ball(1, {0, 0, 0}, 15)}, request3(1, 2, 2, 10, V{-5, 0, 0, 1, 0, 0, 0}, V{5, 0, 0, 1, 0, 0, 0}));
    p.sampleOrientations();
    p.constructOneSlice(0);
    const V a{-4, 0.1, 0, 1, 0, 0, 0}, m{0.1, 0.1, 0.1, 1, 0, 0, 0}, b{4, 0.1, 0.2, 1, 0, 0, 0};
    EXPECT(!p.isSameSliceTransitionFree(a, m));
    EXPECT(!p.isSameSliceTransitionFree(m, b));
    EXPECT(!p.isSameSliceTransitionFree(a, b));
    END;
}
'''),
dict(id="c04-last-link", property="C04",
 edits=[("src/planners/ProbHRM3D.cpp", "        for (size_t i = 0; i < robot_.getNumLinks() + 1; ++i) {\n            mvce.at(i) = getMVCE3D(", "        for (size_t i = 0; i < robot_.getNumLinks(); ++i) {\n            mvce.at(i) = getMVCE3D(")],
 needs="An articulated robot whose last, elongated body turns between the two paired slices",
 breaks="The last body's enclosing ellipsoid covers only one end of the motion, so edges between slices hit obstacles",
 demo=r'''
int main() {
    const std::string f = urdf(1);
    MultiBodyTree3D r(ball(0.4));
    r.addBody(SuperQuadrics({0.3, 0.3, 1.5}, {1, 1}, {0, 0, 1}, Q::Identity(), 10));
    auto q = request3(2, 3, 3, 6, V{-4, 0, 0, 1, 0, 0, 0, 0.0}, V{4, 0, 0, 1, 0, 0, 0, 1.2});
    q.isRobotRigid = false;
    PP p(r, f, {ball(15, {0, 0, 0}, 12)}, {ball(1, {0, 0, 0}, 10)}, q);
    p.v_ = {{0, 0, 0, 1, 0, 0, 0, 0.0}, {0, 0, 0, 1, 0, 0, 0, 1.2}};
    p.param_.numSlice = 2;
    VertexIdx none;
    none.startId = none.slice = 0;
    p.vertexIdx_ = {none, none};
    p.connectMultiSlice();
    EXPECT(p.tfe_.size() == 2);
    double worst = 0;
    for (double t : {0.0, 1.2}) {
        MultiBodyTree3D s = r;
        s.robotTF(f, pose(Q::Identity(), {0, 0, 0}), Eigen::VectorXd::Constant(1, t));
        SuperQuadrics l({0.3, 0.3, 1.5}, {1, 1}, {0, 0, 0}, s.getLinks()[0].getQuaternion(), 30);
        const auto pts = l.getOriginShape();
        for (int i = 0; i < pts.cols(); ++i) worst = std::max(worst, inside(p.tfe_[1], pts.col(i)));
    }
    EXPECT(worst < 1 + 1e-6);
    END;
}
'''),
dict(id="c04-end-step", property="C04",
 edits=[("src/planners/HRM2D.cpp", "    const double dt = 1.0 / (static_cast<double>(param_.numPoint) - 1);\n    for (size_t i = 0; i < param_.numPoint; ++i) {\n        // Interpolate robot motion linearly from v1 to v2",
         "    const double dt = 1.0 / static_cast<double>(param_.numPoint);\n    for (size_t i = 0; i < param_.numPoint; ++i) {\n        // Interpolate robot motion linearly from v1 to v2")],
 needs="A motion between planar slices that is only blocked near its last step",
 breaks="The last configurations of the motion are not checked",
 demo=r'''
struct A : HRM2D {
    using HRM2D::HRM2D; using HRM2D::computeTFE; using HRM2D::tfe_; using HRM2D::bridgeSlice; using HRM2D::isMultiSliceTransitionFree;
};
int main() {
    MultiBodyTree2D r(SuperEllipse({0.5, 0.4}, 1, {0, 0}, 0, 30));
    PlanningRequest q;
    q.parameters.numSlice = 4;
    q.parameters.numLineY = 8;
    q.parameters.numPoint = 4;
    q.parameters.boundaryLimits = {-10, 10, -8, 8};
    q.start = {-5, 0, 0};
    q.goal = {5, 0, 0};
    A p(r, {SuperEllipse({12, 9}, 1, {0, 0}, 0, 60)}, {SuperEllipse({1, 1}, 1, {0, 0}, 0, 30)}, q);
    p.computeTFE(0, 0.2, p.tfe_);
    p.bridgeSlice();
    EXPECT(p.isMultiSliceTransitionFree({-6, 0.1, 0}, {-2, 0, 0.2}));
    EXPECT(!p.isMultiSliceTransitionFree({-6, 0.1, 0}, {-1, 0, 0.2}));
    EXPECT(!p.isMultiSliceTransitionFree({-1, 0.1, 0}, {-6, 0, 0.2}));
    END;
}
'''),
dict(id="c05-bridge-weight", property="C05",
 edits=[("include/hrm/planners/HighwayRoadMap-inl.h", "    res_.graphStructure.weight.push_back(vectorEuclidean(v1, vNew));", "    res_.graphStructure.weight.push_back(vectorEuclidean(v1, v2) -\n                                         vectorEuclidean(vNew, v2));")],
 needs="A bridge vertex, made when the direct motion between vertices of neighbouring lines is blocked",
 breaks="The weight of the first edge of a bridge is smaller than the distance it covers",
 demo=r'''
int main() {
    MultiBodyTree3D r(ball(0.2));
    P3 p(r, {ball(30)}, {ball(1, {0, 1.5, 1.5}, 15)}, request3(1, 2, 2, 10, V{-5, 0, 0, 1, 0, 0, 0}, V{5, 0, 0, 1, 0, 0, 0}));
    p.sampleOrientations();
    p.constructOneSlice(0);
    auto& g = p.res_.graphStructure;
    const Q q = p.q_[0];
    const size_t n = g.vertex.size();
    g.vertex.push_back({0, 0, 0, q.w(), q.x(), q.y(), q.z()});
    g.vertex.push_back({0, 3, 3, q.w(), q.x(), q.y(), q.z()});
    p.bridgeVertex(n, n + 1);
    EXPECT(g.vertex.size() == n + 3);
    for (size_t i = 0; i < g.edge.size(); ++i)
        EXPECT(near(g.weight[i], vectorEuclidean(g.vertex[g.edge[i].first], g.vertex[g.edge[i].second])));
    END;
}
'''),
dict(id="c06-used-once", property="C06",
 edits=[("src/planners/HRM3D.cpp", "                    n22 = m1;\n", "                    n22 = m1 + 1;\n")],
 needs="Two neighbouring vertices of one slice whose closest free partner in the other slice is the same vertex",
 breaks="A partner vertex is used once only, so the later vertices of the slice stay unconnected",
 demo=r'''
int main() {
    MultiBodyTree3D r(ball(0.4));
    P3 p(r, {ball(30)}, {}, request3(2, 2, 2, 5, V{-4, 0, 0, 1, 0, 0, 0}, V{4, 0, 0, 1, 0, 0, 0}));
    p.q_ = {Q::Identity(), axis(0, 0, 1, 0.4)};
    VertexIdx a, b;
    a.startId = 0; a.slice = 3; b.startId = 3; b.slice = 4;
    p.vertexIdx_ = {a, b};
    auto& g = p.res_.graphStructure;
    for (int k = 0; k < 3; ++k) g.vertex.push_back({0, 0, double(k), 1, 0, 0, 0});
    g.vertex.push_back({0, 0, 0, p.q_[1].w(), 0, 0, p.q_[1].z()});
    p.connectMultiSlice();
    EXPECT(g.edge.size() == 3);
    END;
}
'''),
dict(id="c07-partial-list", property="C07",
 edits=[("src/planners/HRM3D.cpp", "        param_.numSlice = robot_.getBase().getQuatSamples().size();\n        q_ = robot_.getBase().getQuatSamples();\n",
         "        const auto& samples = robot_.getBase().getQuatSamples();\n        if (param_.numSlice < 2 || param_.numSlice > samples.size()) {\n            param_.numSlice = samples.size();\n        }\n        q_.assign(samples.begin(), samples.begin() + param_.numSlice);\n")],
 needs="A requested slice number between two and the length of the predefined orientation list, not equal to it",
 breaks="Only the first orientations of the predefined list are used",
 demo=r'''
int main() {
    SuperQuadrics base = ball(0.4);
    std::vector<Q> list;
    for (int k = 0; k < 5; ++k) list.push_back(axis(1, k, 1, 0.5 * k + 0.1));
    base.setQuatSamples(list);
    MultiBodyTree3D r(base);
    for (size_t n : {0, 3, 5, 9}) {
        P3 p(r, {ball(30)}, {}, request3(n, 2, 2, 5, V{-4, 0, 0, 1, 0, 0, 0}, V{4, 0, 0, 1, 0, 0, 0}));
        p.sampleOrientations();
        EXPECT(p.q_.size() == 5 && p.param_.numSlice == 5);
        for (size_t k = 0; k < std::min<size_t>(5, p.q_.size()); ++k) EXPECT(p.q_[k].angularDistance(list[k]) < 1e-9);
    }
    END;
}
'''),
dict(id="d01-eager-search", property="D01",
 edits=[("include/hrm/planners/HighwayRoadMap-inl.h", "                        return vectorEuclidean(\n                            res_.graphStructure.vertex[v],\n                            res_.graphStructure.vertex[idxG]);",
         "                        // favour vertices close to the goal\n                        return 1.5 * vectorEuclidean(\n                                         res_.graphStructure.vertex[v],\n                                         res_.graphStructure.vertex[idxG]);")],
 needs="A roadmap in which the shortest walk starts towards a vertex farther from the goal than that of another walk",
 breaks="The search's estimate exceeds the remaining distance, so the reported walk may be longer than the shortest one",
 demo=r'''
struct A : P3 {
    using P3::P3;
    std::vector<Vertex> getNearestNeighborsOnGraph(const std::vector<Coordinate>& v, const Index, const double) override {
        return {v[0] < 0 ? Vertex(0) : Vertex(1)};
    }
};
int main() {
    MultiBodyTree3D r(ball(0.4));
    A p(r, {ball(30)}, {}, request3(1, 2, 2, 20, V{-1, 0, 0, 1, 0, 0, 0}, V{11, 0, 0, 1, 0, 0, 0}));
    auto& g = p.res_.graphStructure;
    const double xy[4][2] = {{0, 0}, {10, 0}, {1, 2}, {9, -4}};
    for (auto& c : xy) g.vertex.push_back({c[0], c[1], 0, 1, 0, 0, 0});
    for (auto e : std::vector<std::pair<Index, Index>>{{0, 3}, {3, 1}, {0, 2}, {2, 1}}) {
        g.edge.push_back(e);
        g.weight.push_back(vectorEuclidean(g.vertex[e.first], g.vertex[e.second]));
    }
    p.search();
    EXPECT(p.res_.solved);
    EXPECT(near(p.res_.solutionPath.cost, g.weight[2] + g.weight[3]));
    END;
}
'''),
dict(id="d01-first-start", property="D01",
 edits=[("include/hrm/planners/HighwayRoadMap-inl.h", "                if (num == num_vtx + 1) {\n                    res_.solutionPath.PathId.clear();\n                    res_.solutionPath.cost = INFINITY;\n                } else {",
         "                if (num >= num_vtx - 1 && num_vtx > 1) {\n                    res_.solutionPath.PathId.clear();\n                    res_.solutionPath.cost = INFINITY;\n                } else {")],
 needs="A shortest walk that visits every vertex of the roadmap",
 breaks="A solvable query is reported unsolved when its only walk goes through all vertices",
 demo=r'''
struct A : P3 {
    using P3::P3;
    std::vector<Vertex> getNearestNeighborsOnGraph(const std::vector<Coordinate>& v, const Index, const double) override {
        return {v[0] < 0 ? Vertex(0) : Vertex(3)};
    }
};
int main() {
    MultiBodyTree3D r(ball(0.4));
    A p(r, {ball(30)}, {}, request3(1, 2, 2, 20, V{-1, 0, 0, 1, 0, 0, 0}, V{11, 0, 0, 1, 0, 0, 0}));
    auto& g = p.res_.graphStructure;
    for (int k = 0; k < 4; ++k) g.vertex.push_back({double(k), 0, 0, 1, 0, 0, 0});
    for (size_t k = 0; k < 3; ++k) { g.edge.emplace_back(k, k + 1); g.weight.push_back(1); }
    p.search();
    EXPECT(p.res_.solved && p.res_.solutionPath.PathId.size() == 4);
    END;
}
'''),
dict(id="d02-near-query", property="D02",
 edits=[("src/planners/HRM3D.cpp", "        if (minQuat.angularDistance(q) < radius) {", "        if (queryQuat.angularDistance(q) < radius) {")],
 needs="A query whose orientation is farther than the search radius from every slice, or from one near its closest slice",
 breaks="Slices near the closest one are left out, up to all of them, and the query stays unattached",
 demo=r'''
int main() {
    MultiBodyTree3D r(ball(0.4));
    P3 p(r, {ball(30)}, {}, request3(2, 2, 2, 5, V{0, 0, 0, 1, 0, 0, 0}, V{4, 0, 0, 1, 0, 0, 0}));
    p.q_ = {Q::Identity(), axis(0, 0, 1, 0.9)};
    for (const auto& q : p.q_) p.res_.graphStructure.vertex.push_back({0, 0, 0, q.w(), q.x(), q.y(), q.z()});
    const Q q = axis(0, 0, 1, -0.8);
    const auto n = p.getNearestNeighborsOnGraph({0.1, 0, 0, q.w(), q.x(), q.y(), q.z()}, 10, 1.0);
    EXPECT(n.size() == 2);
    END;
}
'''),
dict(id="d02-one-more", property="D02",
 edits=[("src/planners/HRM2D.cpp", "        if (angList.size() >= k) {", "        if (angList.size() > k) {")],
 needs="More slices within the search radius than the requested number",
 breaks="One slice more than requested is considered for the query",
 demo=r'''
struct A : HRM2D {
    using HRM2D::HRM2D; using HRM2D::headings_; using HRM2D::res_; using HRM2D::getNearestNeighborsOnGraph;
};
int main() {
    MultiBodyTree2D r(SuperEllipse({0.5, 0.4}, 1, {0, 0}, 0, 30));
    PlanningRequest q;
    q.parameters.numSlice = 3;
    q.parameters.numLineY = 4;
    q.parameters.boundaryLimits = {-10, 10, -8, 8};
    q.start = {-5, 0, 0};
    q.goal = {5, 0, 0};
    A p(r, {SuperEllipse({12, 9}, 1, {0, 0}, 0, 60)}, {}, q);
    p.headings_ = {0.0, 0.4, 0.8};
    p.res_.graphStructure.vertex = {{0, 0, 0.0}, {0, 0, 0.4}, {0, 0, 0.8}};
    for (size_t k = 1; k <= 4; ++k) EXPECT(p.getNearestNeighborsOnGraph({0, 0.1, 0.1}, k, 1.5).size() == std::min<size_t>(k, 3));
    END;
}
'''),
dict(id="d03-short-segment", property="D03",
 edits=[("src/planners/HRM3D.cpp", "        pathInterp.insert(pathInterp.end(), stepInterp.begin(),\n                          stepInterp.end());", "        // a segment too short for a step of its own adds nothing new\n        if (numStep > 0 || i == 0) {\n            pathInterp.insert(pathInterp.end(), stepInterp.begin(),\n                              stepInterp.end());\n        }")],
 needs="A solution path one of whose later segments is shorter than one interpolation step",
 breaks="The interpolated path leaves out configurations of the solution path, up to the goal",
 demo=r'''
int main() {
    MultiBodyTree3D r(ball(0.4));
    P3 p(r, {ball(30)}, {}, request3(1, 2, 2, 5, V{0, 0, 0, 1, 0, 0, 0}, V{9, 0.01, 0, 1, 0, 0, 0}));
    auto& s = p.res_.solutionPath.solvedPath;
    s = {{0, 0, 0, 1, 0, 0, 0}, {3, 0, 0, 1, 0, 0, 0}, {9, 0, 0, 1, 0, 0, 0}, {9, 0.01, 0, 1, 0, 0, 0}};
    const auto t = p.getInterpolatedSolutionPath(3);
    size_t k = 0;
    for (const auto& c : t) if (k < s.size() && near(c, s[k])) ++k;
    EXPECT(k == s.size());
    EXPECT(!t.empty() && near(t.back(), s.back()));
    END;
}
'''),
dict(id="d04-over-time", property="D04",
 edits=[("include/hrm/planners/HighwayRoadMap-inl.h", "        if (res_.solved || res_.planningTime.totalTime > timeLim) {\n            return;",
         "        if (res_.solved ||\n            (i + 1 == param_.numSlice && res_.planningTime.totalTime > timeLim)) {\n            return;")],
 needs="The time limit passing in the middle of a refinement round",
 breaks="The round goes on over all its remaining slices after the time is used up",
 demo=r'''
struct A : HRM2D {
    using HRM2D::HRM2D;
    int refined = 0;
    void constructOneSlice(const Index i) override {
        if (isRefine_) { ++refined; std::this_thread::sleep_for(std::chrono::milliseconds(120)); }
        HRM2D::constructOneSlice(i);
    }
    std::vector<Vertex> getNearestNeighborsOnGraph(const std::vector<Coordinate>&, const Index, const double) override { return {}; }
};
int main() {
    MultiBodyTree2D r(SuperEllipse({0.5, 0.4}, 1, {0, 0}, 0, 30));
    PlanningRequest q;
    q.parameters.numSlice = 12;
    q.parameters.numLineY = 4;
    q.parameters.boundaryLimits = {-10, 10, -8, 8};
    q.start = {-5, 0, 0};
    q.goal = {5, 0, 0};
    A p(r, {SuperEllipse({12, 9}, 1, {0, 0}, 0, 60)}, {SuperEllipse({1, 1}, 1, {0, 0}, 0, 30)}, q);
    p.plan(0.3);
    EXPECT(!p.getPlanningResult().solved);
    EXPECT(p.refined <= 4);
    END;
}
'''),
dict(id="d05-first-round", property="D05",
 edits=[("src/planners/HRM3D.cpp", "    Index startIdExist = vertexIdxAll_.back().at(sliceId).startId;\n    Index endIdExist = vertexIdxAll_.back().at(sliceId).slice;",
         "    Index startIdExist = vertexIdxAll_.front().at(sliceId).startId;\n    Index endIdExist = vertexIdxAll_.at(vertexIdxAll_.size() / 2)\n                           .at(vertexIdxAll_.size() > 1 ? 0 : sliceId)\n                           .slice;")],
 needs="A second refinement round with two or more slices",
 breaks="The second round joins its vertices to vertices of other slices",
 demo=r'''
int main() {
    MultiBodyTree3D r(ball(0.4));
    auto q = request3(3, 2, 2, 5, V{0, 0, 0, 1, 0, 0, 0}, V{4, 0, 0, 1, 0, 0, 0});
    q.parameters.searchRadius = 1e-12;
    P3 p(r, {ball(30)}, {ball(1, {40, 0, 0})}, q);
    p.q_ = {Q::Identity(), axis(0, 0, 1, 0.9), axis(0, 1, 0, 0.9)};
    for (size_t i = 0; i < 3; ++i) {
        p.constructOneSlice(i);
        VertexIdx v;
        v.startId = i ? p.vertexIdx_.back().slice : 0;
        v.slice = p.res_.graphStructure.vertex.size();
        p.vertexIdx_.push_back(v);
    }
    p.refineExistRoadmap(1e9);
    p.refineExistRoadmap(1e9);
    const auto& g = p.res_.graphStructure;
    for (const auto& e : g.edge)
        EXPECT(near(V(g.vertex[e.first].begin() + 3, g.vertex[e.first].end()), V(g.vertex[e.second].begin() + 3, g.vertex[e.second].end())));
    const auto& last = p.vertexIdx_;
    const auto& prev = p.vertexIdxAll_.back();
    for (size_t i = 0; i < 3; ++i) {
        bool joined = false;
        for (const auto& e : g.edge)
            joined = joined || (e.first >= last[i].startId && e.first < last[i].slice && e.second < last[i].startId);
        EXPECT(joined);
    }
    END;
}
'''),
dict(id="d06-goal-joints", property="D06",
 edits=[("src/planners/ProbHRM3D.cpp", "            config.push_back(goal_.at(7 + i));", "            config.push_back(start_.at(7 + i));")],
 needs="A query whose start and goal joints differ",
 breaks="The second C-slice does not have the goal's joints, and the goal is not reached in its own slice",
 demo=r'''
int main() {
    const std::string f = urdf(2);
    MultiBodyTree3D r(ball(0.4));
    r.addBody(ball(0.4, {0, 0, 0.5}));
    r.addBody(ball(0.4, {0, 0, 0.5}));
    auto q = request3(1, 3, 3, 6, V{-4, 0, 0, 1, 0, 0, 0, 0.3, -0.6}, V{4, 0, 0, 1, 0, 0, 0, 0.2, 0.5});
    q.isRobotRigid = false;
    q.parameters.searchRadius = 1e-12;
    PP p(r, f, {ball(12, {0, 0, 0}, 10)}, {ball(1, {0, 0, 0}, 8)}, q);
    for (double t = 0.05; p.v_.size() < 2; t *= 2) p.plan(t);
    EXPECT(near(V(p.v_[0].begin() + 7, p.v_[0].end()), V{0.3, -0.6}));
    EXPECT(near(V(p.v_[1].begin() + 7, p.v_[1].end()), V{0.2, 0.5}));
    END;
}
'''),
dict(id="d06-first-slice", property="D06",
 edits=[("src/planners/ProbHRM3D.cpp", "    for (size_t i = 0; i < param_.numSlice - 1; ++i) {\n        double dist = vectorEuclidean(v_.back(), v_.at(i));", "    for (size_t i = param_.numSlice > 2 ? 1 : 0; i < param_.numSlice - 1; ++i) {\n        double dist = vectorEuclidean(v_.back(), v_.at(i));")],
 needs="A random slice whose closest earlier slice is the first one",
 breaks="Later slices are never connected to the start's own slice",
 demo=r'''
int main() {
    const std::string f = urdf(1);
    MultiBodyTree3D r(ball(0.4));
    r.addBody(SuperQuadrics({0.3, 0.3, 1}, {1, 1}, {0, 0, 1}, Q::Identity(), 10));
    auto q = request3(2, 3, 3, 6, V{-4, 0, 0, 1, 0, 0, 0, 0.0}, V{4, 0, 0, 1, 0, 0, 0, 1.2});
    q.isRobotRigid = false;
    PP p(r, f, {ball(15, {0, 0, 0}, 12)}, {}, q);
    p.v_ = {{0, 0, 0, 1, 0, 0, 0, 0.0}, {0, 0, 0, 1, 0, 0, 0, 1.2}, {0, 0, 0, 1, 0, 0, 0, 0.1}};
    p.param_.numSlice = 3;
    auto& g = p.res_.graphStructure;
    for (size_t k = 0; k < 3; ++k) {
        VertexIdx x;
        x.startId = k; x.slice = k + 1;
        p.vertexIdx_.push_back(x);
        g.vertex.push_back(p.v_[k]);
    }
    p.connectMultiSlice();
    EXPECT(g.edge.size() == 1 && g.edge[0] == std::make_pair(Index(0), Index(2)));
    END;
}
'''),
dict(id="d07-memo", property="D07",
 edits=[("src/geometry/TightFitEllipsoid.cpp", "                                const Index numStep, const Index num) {\n    SuperEllipse enclosedEllipse = getMVCE2D(a, a, thetaA, thetaB, num);",
         "                                const Index numStep, const Index num) {\n    // the same few bodies and headings come up again and again\n    static std::vector<std::pair<std::vector<double>, SuperEllipse>> known;\n    const std::vector<double> key{a[0], a[1], thetaA, thetaB,\n                                  static_cast<double>(num)};\n    for (const auto& k : known) {\n        if (k.first == key) {\n            return k.second;\n        }\n    }\n\n    SuperEllipse enclosedEllipse = getMVCE2D(a, a, thetaA, thetaB, num);"),
        ("src/geometry/TightFitEllipsoid.cpp", "                                    enclosedEllipse.getAngle(), num);\n    }\n\n    return enclosedEllipse;\n}\n\nhrm::SuperQuadrics hrm::getTFE3D",
         "                                    enclosedEllipse.getAngle(), num);\n    }\n    known.emplace_back(key, enclosedEllipse);\n\n    return known.back().second;\n}\n\nhrm::SuperQuadrics hrm::getTFE3D")],
 needs="An earlier planner in the same process with the same robot and headings but another number of interpolation steps",
 breaks="A planner's enclosing ellipses, and with them its roadmap, depend on which planners ran before",
 demo=r'''
int main() {
    const V a{2, 0.5}, b{4, 1};
    const auto cold = getTFE2D(a, 0, 2.2, 20, 30);
    getTFE2D(b, 0, 2.2, 2, 30);
    const auto warm = getTFE2D(b, 0, 2.2, 20, 30);
    EXPECT(near(2 * cold.getSemiAxis()[0], warm.getSemiAxis()[0]));
    EXPECT(near(2 * cold.getSemiAxis()[1], warm.getSemiAxis()[1]));
    END;
}
'''),
]
