#pragma once
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM2DKC.h"
#include "hrm/planners/HRM3D.h"
#include "hrm/planners/ProbHRM3D.h"
#include "hrm/geometry/LineIntersection.h"
#include "hrm/geometry/MeshGenerator.h"
#include "hrm/geometry/PointInPoly.h"
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/util/EllipsoidSQCollisionFCL.h"
#include "hrm/util/EllipsoidSeparation.h"
#include "hrm/util/InterpolateSE3.h"
#include "hrm/util/Parse2dCsvFile.h"
#include "hrm/util/ParseURDF.h"
#include <chrono>
#include <cmath>
#include <set>
#include <fstream>
#include <iostream>
#include <thread>
using namespace hrm;
using namespace hrm::planners;
typedef std::vector<double> V;
typedef Eigen::Quaterniond Q;
static int failures = 0;
#define EXPECT(c) do { if (!(c)) { ++failures; std::cerr << "line " << __LINE__ << ": " #c " does not hold\n"; } } while (0)
#define END return failures ? 1 : 0
inline bool near(double a, double b, double e = 1e-6) { return std::fabs(a - b) <= e; }
inline bool near(const V& a, const V& b, double e = 1e-6) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i], e)) return false;
    return true;
}
inline Q axis(double x, double y, double z, double t) { return Q(Eigen::AngleAxisd(t, Eigen::Vector3d(x, y, z).normalized())); }
inline Eigen::Matrix4d pose(const Q& q, const V& p) {
    Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
    g.topLeftCorner(3, 3) = q.toRotationMatrix();
    for (int i = 0; i < 3; ++i) g(i, 3) = p[i];
    return g;
}
inline SuperQuadrics ball(double r, const V& p = {0, 0, 0}, int n = 12) { return SuperQuadrics({r, r, r}, {1, 1}, p, Q::Identity(), n); }
inline PlanningRequest request3(size_t slices, size_t nx, size_t ny, double lim, const V& start, const V& goal) {
    PlanningRequest r;
    r.parameters.numSlice = slices;
    r.parameters.numLineX = nx;
    r.parameters.numLineY = ny;
    r.parameters.boundaryLimits = {-lim, lim, -lim, lim, -lim, lim};
    r.start = start;
    r.goal = goal;
    return r;
}
// A robot description with one revolute joint per body, each about z and 1 above the previous one
inline std::string urdf(int n) {
    std::ofstream f("robot.urdf");
    f << "<?xml version=\"1.0\"?>\n<robot name=\"r\">\n<link name=\"base\"/>\n";
    for (int i = 1; i <= n; ++i) f << "<link name=\"body" << i << "\"/>\n";
    for (int i = 1; i <= n; ++i)
        f << "<joint name=\"j" << i << "\" type=\"revolute\"><parent link=\"" << (i == 1 ? "base" : "body" + std::to_string(i - 1))
          << "\"/><child link=\"body" << i << "\"/><origin xyz=\"0 0 1\" rpy=\"0 0 0\"/><axis xyz=\"" << (i % 2 ? "1 0 0" : "0 1 0")
          << "\"/><limit lower=\"-3.2\" upper=\"3.2\" effort=\"1\" velocity=\"1\"/></joint>\n";
    f << "</robot>\n";
    return "robot.urdf";
}
// x'Cx for a body's ellipsoid
inline double inside(const SuperQuadrics& e, const Eigen::Vector3d& x) {
    Eigen::Vector3d y = e.getQuaternion().conjugate() * (x - Eigen::Vector3d(e.getPosition().data()));
    for (int i = 0; i < 3; ++i) y(i) /= e.getSemiAxis()[i];
    return y.squaredNorm();
}
struct P3 : HRM3D {
    using HRM3D::HRM3D;
    using HRM3D::bridgeVertex; using HRM3D::connectExistSlice; using HRM3D::connectMultiSlice; using HRM3D::constructOneSlice;
    using HRM3D::getNearestNeighborsOnGraph; using HRM3D::isMultiSliceTransitionFree; using HRM3D::isSameSliceTransitionFree;
    using HRM3D::param_; using HRM3D::q_; using HRM3D::refineExistRoadmap; using HRM3D::res_; using HRM3D::sampleOrientations;
    using HRM3D::search; using HRM3D::tfe_; using HRM3D::vertexIdx_; using HRM3D::vertexIdxAll_; using HRM3D::v_;
};
struct PP : ProbHRM3D {
    using ProbHRM3D::ProbHRM3D;
    using ProbHRM3D::connectMultiSlice; using ProbHRM3D::constructOneSlice; using ProbHRM3D::param_; using ProbHRM3D::res_;
    using ProbHRM3D::tfe_; using ProbHRM3D::v_; using ProbHRM3D::vertexIdx_;
};
