SEEDS = [
dict(id="a01-touching-union", property="A01",
 edits=[("src/datastructure/Interval.cpp", "if (res.back().e() < element.s()) {", "if (res.back().e() <= element.s()) {")],
 needs="Two intervals of the list that share exactly one endpoint",
 breaks="Touching intervals stay separate members of the union, which is then not disjoint",
 demo=r'''
int main() {
    typedef std::vector<Interval> I;
    const auto u = Interval::unions(I{Interval(2, 3), Interval(0, 1), Interval(1, 2)});
    EXPECT(u.size() == 1);
    EXPECT(u.front().s() == 0 && u.back().e() == 3);
    const auto w = Interval::unions(I{Interval(2, 3), Interval(0, 1), Interval(0.5, 1.5)});
    EXPECT(w.size() == 2 && w[0].e() == 1.5);
    END;
}
'''),
dict(id="a01-point-intersection", property="A01",
 edits=[("src/datastructure/Interval.cpp", "    if (buff.s() > buff.e()) {", "    if (buff.s() >= buff.e()) {")],
 needs="Intervals that share exactly one point, or an inner gap of no length",
 breaks="The common point of touching intervals is lost, and with it the passage between two obstacles that touch",
 demo=r'''
int main() {
    typedef std::vector<Interval> I;
    const auto x = Interval::intersects(I{Interval(0, 1), Interval(1, 2), Interval(-1, 5)});
    EXPECT(x.size() == 1);
    if (x.size() == 1) EXPECT(x[0].s() == 1 && x[0].e() == 1);
    EXPECT(Interval::intersects(I{Interval(0, 1), Interval(1.5, 2)}).empty());
    const auto c = Interval::complements(I{Interval(3, 9)}, I{Interval(0, 1), Interval(4, 9)});
    bool last = false;
    for (const auto& i : c) last = last || i.e() == 9;
    EXPECT(last);
    END;
}
'''),
dict(id="a03-closing-edge", property="A03",
 edits=[("src/geometry/LineIntersection.cpp", "        if (i == shape.cols() - 1) {\n            x2 = shape(0, 0);\n            y2 = shape(1, 0);\n        } else {",
         "        if (i == shape.cols() - 1) {\n            x2 = shape(0, i);\n            y2 = shape(1, i);\n        } else {")],
 needs="A polygon whose last vertex is not a repetition of the first, and a line through the closing edge",
 breaks="The edge from the last vertex back to the first is ignored: a line that leaves through it has its exit at the entry",
 demo=r'''
int main() {
    Eigen::Matrix2Xd sq(2, 4);
    sq << 0, 2, 2, 0,
          0, 0, 2, 2;
    auto p = intersectHorizontalLinePolygon2D(0.7, sq);
    EXPECT(p.size() == 2);
    if (p.size() == 2) { EXPECT(near(std::min(p[0], p[1]), 0)); EXPECT(near(std::max(p[0], p[1]), 2)); }
    EXPECT(intersectHorizontalLinePolygon2D(2.5, sq).empty());
    END;
}
'''),
dict(id="a04-backward-motion", property="A04",
 edits=[("src/geometry/LineIntersection.cpp", "if (std::fabs(direction.dot(basis.at(i))) < 1e-6 &&", "if (direction.dot(basis.at(i)) < 1e-6 &&")],
 needs="A motion in a negative axis direction whose start is outside the obstacle's extent on that axis",
 breaks="The motion is taken for one that never meets the C-obstacle and reported free although it goes straight through it",
 demo=r'''
int main() {
    MultiBodyTree3D robot(ball(0.2));
    P3 p(robot, {ball(20)}, {ball(1, {0, 0, 0}, 15)}, request3(1, 3, 3, 10, V{-5, 0, 0, 1, 0, 0, 0}, V{5, 0, 0, 1, 0, 0, 0}));
    p.sampleOrientations();
    p.constructOneSlice(0);
    const V a{-4, 0.1, 0.2, 1, 0, 0, 0}, b{4, -0.2, 0.1, 1, 0, 0, 0}, c{-4, 3, 4, 1, 0, 0, 0}, d{4, 3, 4.5, 1, 0, 0, 0};
    EXPECT(!p.isSameSliceTransitionFree(a, b));
    EXPECT(!p.isSameSliceTransitionFree(b, a));
    EXPECT(p.isSameSliceTransitionFree(c, d));
    EXPECT(p.isSameSliceTransitionFree(d, c));
    END;
}
'''),
dict(id="b01-mixed-exponents", property="B01",
 edits=[("src/geometry/SuperQuadrics.cpp", "                       exponentialFunctionMatrixForm(omega_, 2 - eps2, true)) /\n               b1;",
         "                       exponentialFunctionMatrixForm(omega_, 2 - eps1, true)) /\n               b1;")],
 needs="A superquadric whose two exponents differ",
 breaks="The y component of the surface normal uses the other exponent, so the Minkowski points are no contact positions",
 demo=r'''
static void check(double e1, double e2) {
    const SuperQuadrics a({2, 1.5, 1}, {e1, e2}, {0, 0, 0}, Q::Identity(), 14);
    const double r = 0.5;
    const auto m = a.getMinkSum3D(ball(r), 1);
    const SuperQuadrics fine({2, 1.5, 1}, {e1, e2}, {0, 0, 0}, Q::Identity(), 400);
    const auto s = fine.getOriginShape();
    double worst = 0;
    for (int i = 0; i < m.cols(); ++i) {
        double d = 1e9;
        for (int j = 0; j < s.cols(); ++j) d = std::min(d, (m.col(i) - s.col(j)).norm());
        worst = std::max(worst, std::fabs(d - r));
    }
    EXPECT(worst < 0.003);
}
int main() {
    check(1, 1);
    check(0.7, 1.3);
    END;
}
'''),
dict(id="b02-last-orientation", property="B02",
 edits=[("src/geometry/TightFitEllipsoid.cpp", "SuperQuadrics enclosedEllipsoid = getMVCE3D(a, a, quatA, quatB, num);",
         "SuperQuadrics enclosedEllipsoid = getMVCE3D(a, a, quatA, quatA, num);")],
 needs="A rotation of an elongated body whose last step adds to the swept volume",
 breaks="The body at the last orientation of the motion is not contained in the ellipsoid meant to cover the motion",
 demo=r'''
int main() {
    const V a{3, 0.5, 0.4};
    const Q q1 = Q::Identity(), q2 = axis(0.2, 0.3, 1, 0.5);
    const auto c = getTFE3D(a, q1, q2, 3, 10);
    double worst = 0;
    for (int k = 0; k <= 3; ++k) {
        const SuperQuadrics e(a, {1, 1}, {0, 0, 0}, q1.slerp(k / 3.0, q2), 40);
        const auto s = e.getOriginShape();
        for (int i = 0; i < s.cols(); ++i) worst = std::max(worst, inside(c, s.col(i)));
    }
    EXPECT(worst < 1 + 1e-6);
    END;
}
'''),
dict(id="b03-small-turns", property="B03",
 edits=[("src/geometry/SuperQuadrics.cpp", "    quat_ = newQuat;\n", "    // skip turns below the resolution of the sampled surface\n    const double turn = quat_.angularDistance(newQuat);\n    quat_ = turn * static_cast<double>(num_) < 0.1 ? quat_ : newQuat;\n")],
 needs="A body turned by less than a hundredth of a radian at a time",
 breaks="Small turns are dropped, so the sampled surface is not that of the body's current pose; many small turns add up",
 demo=r'''
int main() {
    SuperQuadrics s({2, 1, 0.5}, {1, 1}, {0, 0, 0}, Q::Identity(), 10);
    for (int k = 1; k <= 3; ++k) s.setQuaternion(axis(0, 0, 1, 0.003 * k));
    const SuperQuadrics t({2, 1, 0.5}, {1, 1}, {0, 0, 0}, axis(0, 0, 1, 0.009), 10);
    EXPECT((s.getOriginShape() - t.getOriginShape()).cwiseAbs().maxCoeff() < 1e-9);
    s.setQuaternion(axis(0, 1, 0, 0.7));
    EXPECT(s.getQuaternion().angularDistance(axis(0, 1, 0, 0.7)) < 1e-9);
    END;
}
'''),
dict(id="b04-same-orientation", property="B04",
 edits=[("src/datastructure/MultiBodyTree3D.cpp", "    Eigen::Quaterniond quat(rotMat);\n    base_.setQuaternion(quat);\n",
         "    Eigen::Quaterniond quat(rotMat);\n    const bool isTurned = base_.getQuaternion().angularDistance(quat) > 0.0;\n    base_.setQuaternion(quat);\n"),
        ("src/datastructure/MultiBodyTree3D.cpp", "        rotMat = gLink.topLeftCorner(3, 3);\n        quat = Eigen::Quaterniond(rotMat);\n        link_.at(i).setQuaternion(quat);\n    }\n}\n\nvoid hrm::MultiBodyTree3D::robotTF(const std::string& urdfFile,",
         "        // links only turn together with the base\n        if (isTurned) {\n            rotMat = gLink.topLeftCorner(3, 3);\n            quat = Eigen::Quaterniond(rotMat);\n            link_.at(i).setQuaternion(quat);\n        }\n    }\n}\n\nvoid hrm::MultiBodyTree3D::robotTF(const std::string& urdfFile,")],
 needs="A robot whose base was created (or moved with joints) at the very orientation of the next transform",
 breaks="The links keep the orientation of an earlier state instead of base orientation composed with their offset",
 demo=r'''
int main() {
    const Q q = axis(0, 0, 1, PI / 2), o = axis(1, 0, 0, 0.4);
    SuperQuadrics base({2, 1, 1}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond(q.toRotationMatrix()), 8);
    MultiBodyTree3D r(base);
    r.addBody(SuperQuadrics({1, 0.5, 0.5}, {1, 1}, {1, 2, 3}, o, 8));
    for (int k = 0; k < 3; ++k) {
        r.robotTF(pose(q, {double(k), 1, 2}));
        EXPECT(r.getLinks()[0].getQuaternion().angularDistance(q * o) < 1e-6);
        EXPECT(near(r.getLinks()[0].getPosition(), V{k - 2.0, 2, 5}, 1e-5));
    }
    const std::string f = urdf(1);
    MultiBodyTree3D s(ball(1));
    s.addBody(SuperQuadrics({1, 0.5, 0.5}, {1, 1}, {0, 0, 0}, o, 8));
    s.robotTF(f, pose(q, {0, 0, 0}), Eigen::VectorXd::Constant(1, 1.0));
    s.robotTF(pose(q, {0, 0, 0}));
    EXPECT(s.getLinks()[0].getQuaternion().angularDistance(q * o) < 1e-6);
    END;
}
'''),
dict(id="b05-joint-range", property="B05",
 edits=[("src/datastructure/MultiBodyTree3D.cpp", "    jointArray.data = jointConfig;\n", "    // joints stay within a quarter turn\n    jointArray.data = jointConfig.cwiseMax(-HALF_PI).cwiseMin(HALF_PI);\n")],
 needs="A joint value beyond a quarter turn",
 breaks="Bodies are placed by the forward kinematics of a different joint vector",
 demo=r'''
int main() {
    const std::string f = urdf(2);
    MultiBodyTree3D r(ball(1));
    r.addBody(ball(0.5, {0, 0, 1}));
    r.addBody(ball(0.5, {0, 0, 1}));
    Eigen::VectorXd j(2);
    j << 2.2, -0.4;
    r.robotTF(f, pose(Q::Identity(), {0, 0, 0}), j);
    const Eigen::Vector3d up(0, 0, 1);
    const Q q1 = axis(1, 0, 0, 2.2), q2 = q1 * axis(0, 1, 0, -0.4);
    const Eigen::Vector3d p1 = up + q1 * up, p2 = up + q1 * up + q2 * up;
    EXPECT((Eigen::Vector3d(r.getLinks()[0].getPosition().data()) - p1).norm() < 1e-6);
    EXPECT((Eigen::Vector3d(r.getLinks()[1].getPosition().data()) - p2).norm() < 1e-6);
    END;
}
'''),
dict(id="b06-lerp", property="B06",
 edits=[("src/util/InterpolateSE3.cpp", "        interpolatedQuat.push_back(\n            quatA.slerp(static_cast<double>(i) * dt, quatB));",
         "        const double s = static_cast<double>(i) * dt;\n        const double sign = quatA.dot(quatB) < 0.0 ? -1.0 : 1.0;\n        Eigen::Quaterniond quat;\n        quat.coeffs() = (1.0 - s) * quatA.coeffs() + sign * s * quatB.coeffs();\n        interpolatedQuat.push_back(quat.normalized());")],
 needs="Two orientations far apart (the error grows with the angle between them)",
 breaks="Interpolated orientations do not turn at a constant rate",
 demo=r'''
int main() {
    for (double t : {0.3, 1.5, 2.6}) {
        const Q a = axis(1, 2, 3, 0.4), b = a * axis(3, -1, 1, t);
        const auto s = interpolateSlerp(a, b, 6);
        EXPECT(s.size() == 7);
        for (size_t i = 0; i + 1 < s.size(); ++i) EXPECT(near(s[i].angularDistance(s[i + 1]), t / 6, 1e-6));
        EXPECT(s.back().angularDistance(b) < 1e-6);
    }
    END;
}
'''),
dict(id="b07-second-exponent", property="B07",
 edits=[("src/util/EllipsoidSQCollisionFCL.cpp", "    if (std::fabs(object.getEpsilon().at(0) - 1.0) < 1e-6 &&\n        std::fabs(object.getEpsilon().at(1) - 1.0) < 1e-6) {",
         "    if (std::fabs(object.getEpsilon().at(0) - 1.0) < 1e-6) {")],
 needs="A body whose first exponent is 1 and whose second is not",
 breaks="The body is checked as an ellipsoid: an overlap with one of its rounded corners is missed",
 demo=r'''
int main() {
    const SuperQuadrics box({2, 2, 2}, {1, 0.3}, {0, 0, 0}, Q::Identity(), 30);
    const auto cbox = setCollisionObjectFromSQ(box);
    for (double d : {0.0, 1.65, 1.75, 1.9, 4.0}) {
        const SuperQuadrics b = ball(0.3, {d, d, 0});
        EXPECT(isCollision(b, setCollisionObjectFromSQ(b), box, cbox) == (d < 3));
    }
    END;
}
'''),
dict(id="b07-near-tangent", property="B07",
 edits=[("src/util/EllipsoidSeparation.cpp", "        if (std::fabs(roots.at(i).imag()) < 1e-6 && roots.at(i).real() < 0) {\n            negRootsId.push_back(i);\n        }\n    }\n\n    // Separation conditions\n    bool isSeparated = false;\n    if (negRootsId.size() == 2 &&\n        std::abs(roots.at(negRootsId.at(0)) - roots.at(negRootsId.at(1))) >\n            1e-6) {\n        isSeparated = true;\n    }\n\n    return isSeparated;\n}\n\nbool hrm::isEllipseSeparated",
         "        if (std::fabs(roots.at(i).imag()) < 0.2 && roots.at(i).real() < 0) {\n            negRootsId.push_back(i);\n        }\n    }\n\n    // Separation conditions\n    bool isSeparated = false;\n    if (negRootsId.size() == 2 &&\n        std::abs(roots.at(negRootsId.at(0)) - roots.at(negRootsId.at(1))) >\n            1e-6) {\n        isSeparated = true;\n    }\n\n    return isSeparated;\n}\n\nbool hrm::isEllipseSeparated")],
 needs="Two ellipsoids that overlap by a small amount",
 breaks="Complex roots close to the real axis count as real: ellipsoids with a shallow overlap are reported separated",
 demo=r'''
int main() {
    for (double d : {1.0, 1.9, 1.98, 1.995, 2.005, 2.02, 2.1, 3.0})
        EXPECT(isEllipsoidSeparated(ball(1), ball(1, {d, 0, 0})) == (d > 2));
    const SuperQuadrics e({2, 1, 0.5}, {1, 1}, {0, 0, 0}, axis(0, 0, 1, 0.3), 10);
    const Eigen::Vector3d x = axis(0, 0, 1, 0.3) * Eigen::Vector3d(1, 0, 0);
    for (double d : {2.0, 2.9, 2.99, 3.01, 3.1})
        EXPECT(isEllipsoidSeparated(e, ball(1, {d * x(0), d * x(1), d * x(2)})) == (d > 3));
    END;
}
'''),
dict(id="f01-hash", property="F01",
 edits=[("src/util/Parse2dCsvFile.cpp", "        if (s[0] != '#') {", "        if (s.find('#') == std::string::npos) {")],
 needs="A data line with a trailing remark",
 breaks="A record followed by a remark is dropped although the line is no comment line, which shifts every later record",
 demo=r'''
int main() {
    { std::ofstream f("t.csv"); f << "# a, b\n1,2,3\n4,5,6 # second\n7,8,9\n"; }
    const auto d = parse2DCsvFile("t.csv");
    EXPECT(d.size() == 3);
    if (d.size() == 3) { EXPECT(near(d[1], V{4, 5, 6})); EXPECT(near(d[2], V{7, 8, 9})); }
    END;
}
'''),
dict(id="f01-negative-zero", property="F01",
 edits=[("src/util/Parse2dCsvFile.cpp", "                    record.emplace_back(stof(line));", "                    std::size_t end = 0;\n                    const double value = std::stof(line, &end);\n                    if (end > 0 && value == static_cast<int>(value)) {\n                        record.emplace_back(std::stoi(line));\n                    } else {\n                        record.emplace_back(value);\n                    }")],
 needs="A whole number written in scientific notation, such as 2e1",
 breaks="The exponent of the number is dropped",
 demo=r'''
int main() {
    { std::ofstream f("t.csv"); f << "1,-2.5,2e1,3.0e2,1.5e-1\n"; }
    const auto d = parse2DCsvFile("t.csv");
    EXPECT(d.size() == 1);
    if (d.size() == 1) EXPECT(near(d[0], V{1, -2.5, 20, 300, 0.15}, 1e-5));
    END;
}
'''),
dict(id="g01-last-simplex", property="G01",
 edits=[("src/geometry/PointInPoly.cpp", "        if (alpha.minCoeff() >= 0 && alpha.maxCoeff() <= 1) {\n            flag = true;\n            return flag;\n        }\n",
         "        flag = alpha.minCoeff() >= 0 && alpha.maxCoeff() <= 1;\n        if (flag || alpha.sum() > 1) {\n            return flag;\n        }\n")],
 needs="A polyhedron of several simplices and rounding of the barycentric sum above one in an earlier simplex",
 breaks="The search stops at a simplex that does not contain the point although a later one does",
 demo=r'''
static void add(PolyCSpace& p, const Eigen::Matrix4d& m) {
    const Eigen::Matrix4d i = m.inverse();
    p.matrixInverse.emplace_back(i.data(), i.data() + 16);
}
int main() {
    PolyCSpace poly;
    for (int k = 0; k < 40; ++k) {
        Eigen::Matrix4d m;
        const double o = 1.7 * k, s = 1.0 + 0.013 * k;
        m << o, o + s, o, o,
             0.1, 0.1, 0.1 + s, 0.1,
             0.3, 0.3, 0.3, 0.3 + s,
             1, 1, 1, 1;
        add(poly, m);
    }
    for (int k = 0; k < 40; ++k) {
        const double o = 1.7 * k, s = 1.0 + 0.013 * k;
        EXPECT(isPtInPoly(poly, V{o + 0.2 * s, 0.1 + 0.2 * s, 0.3 + 0.2 * s}));
        EXPECT(!isPtInPoly(poly, V{o, 0.1, 0.29}));
    }
    END;
}
'''),
]
