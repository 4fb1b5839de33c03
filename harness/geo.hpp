// Conversions of the repository's types to the records of the specification.
#pragma once
#include "common.hpp"
#include "hrm/datastructure/DataType.h"
#include "hrm/geometry/MeshGenerator.h"
#include "hrm/geometry/SuperEllipse.h"
#include "hrm/geometry/SuperQuadrics.h"

// Shape2 == <<a, b, eps, x, y, angle>>
inline std::vector<double> shape(const hrm::SuperEllipse& s) {
    return {s.getSemiAxis().at(0), s.getSemiAxis().at(1), s.getEpsilon(),
            s.getPosition().at(0), s.getPosition().at(1), s.getAngle()};
}
// Shape3 == <<a, b, c, e1, e2, x, y, z, qw, qx, qy, qz>>
inline std::vector<double> shape(const hrm::SuperQuadrics& s) {
    const auto& q = s.getQuaternion();
    return {s.getSemiAxis().at(0), s.getSemiAxis().at(1), s.getSemiAxis().at(2),
            s.getEpsilon().at(0), s.getEpsilon().at(1), s.getPosition().at(0),
            s.getPosition().at(1), s.getPosition().at(2), q.w(), q.x(), q.y(), q.z()};
}
template <class S>
std::vector<std::vector<double>> shapes(const std::vector<S>& v) {
    std::vector<std::vector<double>> o;
    for (const auto& s : v) o.push_back(shape(s));
    return o;
}
inline std::vector<std::vector<double>> cols(const Eigen::MatrixXd& m) {
    std::vector<std::vector<double>> o;
    for (Eigen::Index c = 0; c < m.cols(); ++c) {
        std::vector<double> p;
        for (Eigen::Index r = 0; r < m.rows(); ++r) p.push_back(m(r, c));
        o.push_back(p);
    }
    return o;
}
inline std::vector<std::vector<double>> rows(const Eigen::MatrixXd& m) {
    return cols(m.transpose());
}
inline std::vector<double> vec(const Eigen::Vector3d& v) { return {v(0), v(1), v(2)}; }
inline std::vector<double> qvec(const Eigen::Quaterniond& q) { return {q.w(), q.x(), q.y(), q.z()}; }
inline Eigen::Quaterniond rquat(Rng& r) {
    std::normal_distribution<double> n(0, 1);
    Eigen::Quaterniond q(n(r.g), n(r.g), n(r.g), n(r.g));
    q.normalize();
    return q;
}
inline std::vector<std::vector<int>> ints(const std::vector<std::vector<double>>& v) {
    std::vector<std::vector<int>> o;
    for (const auto& r : v) o.emplace_back(r.begin(), r.end());
    return o;
}
// where the line o + t d meets a polygon or a surface (to aim segments at, not to judge by):
// {first, last} parameter, or nothing
inline std::vector<double> ends(std::vector<double> t) {
    if (t.size() < 2) return {};
    std::sort(t.begin(), t.end());
    return {t.front(), t.back()};
}
inline std::vector<double> chord(const Eigen::Matrix2Xd& p, const Eigen::Vector2d& o, const Eigen::Vector2d& d) {
    std::vector<double> t;
    for (Eigen::Index k = 0; k < p.cols(); ++k) {
        const Eigen::Vector2d a = p.col(k), b = p.col((k + 1) % p.cols());
        const double fa = d(0) * (a(1) - o(1)) - d(1) * (a(0) - o(0)), fb = d(0) * (b(1) - o(1)) - d(1) * (b(0) - o(0));
        if ((fa > 0) != (fb > 0)) {
            const Eigen::Vector2d x = a + fa / (fa - fb) * (b - a);
            t.push_back((x - o).dot(d) / d.squaredNorm());
        }
    }
    return ends(t);
}
inline std::vector<double> chord(const Eigen::MatrixXd& v, const Eigen::MatrixXd& f, const Eigen::Vector3d& o, const Eigen::Vector3d& d) {
    std::vector<double> t;
    for (Eigen::Index k = 0; k < f.rows(); ++k) {
        const Eigen::Vector3d a = v.col(int(f(k, 0))), e1 = v.col(int(f(k, 1))) - a, e2 = v.col(int(f(k, 2))) - a;
        const Eigen::Vector3d h = d.cross(e2);
        const double det = e1.dot(h);
        if (det == 0) continue;
        const Eigen::Vector3d s = o - a, q = s.cross(e1);
        const double u = s.dot(h) / det, w = d.dot(q) / det;
        if (u >= 0 && w >= 0 && u + w <= 1) t.push_back(e2.dot(q) / det);
    }
    return ends(t);
}
// how segments lie to a boundary the line o + t d enters at c[0] and leaves at c[1]: they
// just span it, stop short of it, begin inside, or come from far away
inline std::vector<std::pair<double, double>> spans(Rng& r, const std::vector<double>& c) {
    const double l = c[1] - c[0], e = l * std::pow(10.0, -r.i(2, 4)), g = l * std::pow(10.0, -r.i(1, 4));
    std::vector<std::pair<double, double>> o{
        {c[0] - e, c[1] + g}, {c[0] - e, c[1] + 5 * l}, {c[0] - 5 * l, c[0] - e}, {c[1] + g, c[1] + 4 * l}, {c[0] - 40 * l, c[1] + 30 * l},
        {c[0] - e, c[0] + r.u(0.2, 0.8) * l}, {c[1] - r.u(0.2, 0.8) * l, c[1] + g}};
    for (auto& x : o)
        if (r.p(0.5)) std::swap(x.first, x.second);
    return o;
}
