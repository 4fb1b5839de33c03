// Polyhedra as unions of simplices.
#pragma once
#include "common.hpp"
#include "hrm/geometry/PointInPoly.h"
#include <Eigen/Dense>
using namespace hrm;
using V1 = std::vector<double>;
using Simplex = std::vector<V1>;
static PolyCSpace poly(const std::vector<Simplex>& all) {
    PolyCSpace p;
    for (const auto& s : all) {
        Eigen::Matrix4d m;
        for (int k = 0; k < 4; ++k) m.col(k) << s[k][0], s[k][1], s[k][2], 1;
        for (const auto& v : s) p.vertex.push_back(v);
        const Eigen::Matrix4d inv = m.inverse();
        p.matrixInverse.emplace_back(inv.data(), inv.data() + 16);
    }
    return p;
}
static V1 mid(const V1& a, const V1& b, double t) {
    V1 c;
    for (int k = 0; k < 3; ++k) c.push_back(a[k] + t * (b[k] - a[k]));
    return c;
}
// the octahedron with these semi-axes, in eight simplices around the origin
static std::vector<Simplex> octa(const V1& h) {
    std::vector<Simplex> o;
    for (int k = 0; k < 8; ++k)
        o.push_back({{0, 0, 0}, {k & 1 ? h[0] : -h[0], 0, 0}, {0, k & 2 ? h[1] : -h[1], 0}, {0, 0, k & 4 ? h[2] : -h[2]}});
    return o;
}
