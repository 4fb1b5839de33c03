// lines, segments and free segments
using V2 = std::vector<std::vector<double>>;
static Eigen::MatrixXd mat(const V2& p) {
    Eigen::MatrixXd m(p.empty() ? 0 : p[0].size(), p.size());
    for (size_t c = 0; c < p.size(); ++c)
        for (size_t k = 0; k < p[c].size(); ++k) m(k, c) = p[c][k];
    return m;
}
// the shapes the planners use have their first point repeated at the end and may
// run in either direction
static std::vector<V2> variants(const V2& p) {
    std::vector<V2> o{p};
    V2 closed = p;
    closed.push_back(p[0]);
    o.push_back(closed);
    V2 rev(p.rbegin(), p.rend());
    rev.push_back(rev[0]);
    o.push_back(rev);
    return o;
}
static std::vector<SuperEllipse> ellipses(Rng& r, int n, bool shaped = true) {
    std::vector<SuperEllipse> o;
    for (int k = 0; k < n; ++k)
        o.emplace_back(std::vector<double>{r.u(0.5, 8), r.u(0.5, 8)}, shaped ? r.u(0.2, 1.8) : 1.0,
                       std::vector<double>{r.u(-10, 10), r.u(-10, 10)}, r.u(-3.2, 3.2), r.i(10, 60));
    return o;
}
static SuperQuadrics quadric(Rng& r, int n, double spread, double smin, double smax, bool shaped = true) {
    return SuperQuadrics({r.u(smin, smax), r.u(smin, smax), r.u(smin, smax)},
                         shaped ? std::vector<double>{r.u(0.3, 1.7), r.u(0.3, 1.7)} : std::vector<double>{1, 1},
                         {r.u(-spread, spread), r.u(-spread, spread), r.u(-spread, spread)}, rquat(r), n);
}
static Line3D line6(const std::vector<double>& v) {
    Line3D l(6);
    for (int k = 0; k < 6; ++k) l(k) = v[k];
    return l;
}
static V2 pts(const std::vector<Point3D>& v) {
    V2 o;
    for (const auto& p : v) o.push_back({p(0), p(1), p(2)});
    return o;
}
static double size3(const Eigen::MatrixXd& v) {
    return (v.rowwise().maxCoeff() - v.rowwise().minCoeff()).norm();
}

static void lines(Out& out, const char* cases) {
    for (const auto& c : readCases(cases)) {
        if (c["k"].s == "poly") {
            std::vector<double> ty;
            for (int t = -1; t <= 5; ++t) ty.push_back(t);
            ty.push_back(0.5); ty.push_back(1.25); ty.push_back(3.75); ty.push_back(4.0000001);
            for (const auto& p : variants(c["poly"].mat())) {
                V2 hits;
                for (double t : ty) hits.push_back(intersectHorizontalLinePolygon2D(t, mat(p)));
                out(Rec("poly").put("tol", 1e-9).put("poly", p).put("ty", ty).put("hits", hits));
            }
        } else {
            MeshMatrix m;
            m.vertices = mat(c["v"].mat());
            m.faces = mat(c["f"].mat()).transpose();
            V2 ln;
            std::vector<V2> hits;
            const V2 dirs = c["dirs"].mat();
            for (double x = -0.5; x <= 2.5; x += 0.5)
                for (double y = -0.5; y <= 2.5; y += 0.5) {
                    for (const auto& d : dirs) {
                        std::vector<double> l{x, y, d[2] == 0 ? (d[0] == 0 || d[1] == 0 ? 1.0 : 0.5) : -3.0, d[0], d[1], d[2]};
                        if (!d[2]) { l[0] = x; l[1] = y; }
                        ln.push_back(l);
                        hits.push_back(pts(intersectLineMesh3D(line6(l), m)));
                    }
                    for (double z : {0.0, 2.0, -1.0}) {
                        std::vector<double> l{x, z, y, 1, 0, 0};
                        ln.push_back(l);
                        hits.push_back(pts(intersectLineMesh3D(line6(l), m)));
                    }
                    std::vector<double> l{x, y, 0, 0, 0, 1};
                    ln.push_back(l);
                    hits.push_back(pts(intersectVerticalLineMesh3D(line6(l), m)));
                }
            out(Rec("solid").put("v", c["v"].mat()).put("f", ints(c["f"].mat())).put("lines", ln).put("hits", hits));
        }
    }
    Rng r(21);
    const int n = thorough() ? 500 : 200;
    for (int t = 0; t < n; ++t) {
        // sampled boundaries of bodies: generic heights, vertex heights, extremes
        const SuperEllipse e = ellipses(r, 1)[0];
        const Eigen::MatrixXd b = e.getOriginShape();
        std::vector<double> ty;
        V2 hits;
        for (int k = 0; k < 12; ++k) ty.push_back(r.u(b.row(1).minCoeff() - 1, b.row(1).maxCoeff() + 1));
        for (int k = 0; k < 6; ++k) ty.push_back(b(1, r.i(0, b.cols() - 1)));
        ty.push_back(b.row(1).maxCoeff());
        ty.push_back(b.row(1).minCoeff());
        for (double y : ty) hits.push_back(intersectHorizontalLinePolygon2D(y, b));
        out(Rec("poly").put("tol", 1e-6).put("poly", cols(b)).put("ty", ty).put("hits", hits));
    }
    for (int t = 0; t < n; ++t) {
        SuperQuadrics q = quadric(r, r.i(5, thorough() ? 16 : 12), 5, 0.5, 6);
        const bool upright = r.p(0.4);
        if (upright) q.setQuaternion(Eigen::Quaterniond::Identity());
        const MeshMatrix m = getMeshFromParamSurface(q.getOriginShape(), q.getNumParam());
        V2 ln;
        std::vector<V2> hits;
        std::vector<double> tols;
        double tol = 5e-3;
        auto vertical = [&](double x, double y) {
            std::vector<double> l{x, y, 0, 0, 0, 1};
            ln.push_back(l), tols.push_back(tol);
            hits.push_back(pts(intersectVerticalLineMesh3D(line6(l), m)));
            ln.push_back(l), tols.push_back(tol);
            hits.push_back(pts(intersectLineMesh3D(line6(l), m)));
        };
        auto general = [&](const Point3D& o, const Point3D& d) {
            std::vector<double> l{o(0), o(1), o(2), d(0), d(1), d(2)};
            ln.push_back(l), tols.push_back(tol);
            hits.push_back(pts(intersectLineMesh3D(line6(l), m)));
        };
        const auto& c = q.getPosition();
        vertical(c[0], c[1]);                                   // through the poles when upright
        tol = 1e-6;
        for (int k = 0; k < 6; ++k)
            vertical(c[0] + r.u(-7, 7), c[1] + r.u(-7, 7));
        for (int k = 0; k < 4; ++k) {                           // through sampled points and edges
            tol = 5e-3;     // which of two faces met along an edge is hit first is not determined
            int v = r.i(0, m.vertices.cols() - 1);
            vertical(m.vertices(0, v), m.vertices(1, v));
            int f = r.i(0, m.faces.rows() - 1);
            Point3D mid = 0.5 * (m.vertices.col(int(m.faces(f, 0))) + m.vertices.col(int(m.faces(f, 2))));
            vertical(mid(0), mid(1));
            Point3D ctr(c[0], c[1], c[2]);
            general(ctr, m.vertices.col(v) - ctr);
            general(mid, (m.vertices.col(v) - mid).normalized());
            tol = 1e-6;
            Point3D d(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
            general(ctr + Point3D(r.u(-4, 4), r.u(-4, 4), r.u(-4, 4)), d);
            Point3D ax = Point3D::Zero();
            ax(r.i(0, 2)) = r.p(0.5) ? 1 : -1;
            general(ctr + Point3D(r.u(-4, 4), r.u(-4, 4), r.u(-4, 4)), ax);
            // from far away, almost along an axis
            Point3D al = Point3D(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)) * std::pow(10.0, -r.i(1, 4));
            al(r.i(0, 2)) = r.p(0.5) ? 1 : -1;
            general(ctr + Point3D(r.u(-2, 2), r.u(-2, 2), r.u(-2, 2)) + r.u(-600, 600) * al, al);
        }
        out(Rec("mesh").put("v", cols(m.vertices)).put("f", ints(rows(m.faces))).put("size", size3(m.vertices))
                .put("tols", tols).put("lines", ln).put("hits", hits));
    }
}

static void segments(Out& out, const char* cases) {
    Rng r(31);
    V2 ends;
    for (int x = -1; x <= 5; ++x)
        for (int y = -1; y <= 5; ++y) ends.push_back({double(x), double(y)});
    long k = 0;
    for (const auto& c : readCases(cases)) {
        if (c["k"].s != "poly") continue;
        const auto vs = variants(c["poly"].mat());
        const V2& p = vs[(k + envInt("VERIF_SEED", 1)) % vs.size()];
        const Eigen::MatrixXd m = mat(p);
        V2 segs;
        std::vector<bool> blocked;
        long q = 0;
        for (size_t a = 0; a < ends.size(); ++a)
            for (size_t b = 0; b < ends.size(); ++b) {
                if (a == b) continue;
                ++q;
                if (!thorough() && (q + k + envInt("VERIF_SEED", 1)) % 5) continue;
                segs.push_back({ends[a][0], ends[a][1], ends[b][0], ends[b][1]});
                blocked.push_back(isIntersectSegPolygon2D({ends[a], ends[b]}, m));
            }
        ++k;
        if (k % 4 == 0) {       // the same pressed flat: every edge along the segments
            V2 fp = p, fs;
            std::vector<bool> fb;
            const bool swap = k % 8 == 0;
            for (auto& x : fp) { x[0] *= 32, x[1] /= 64; if (swap) std::swap(x[0], x[1]); }
            const Eigen::MatrixXd fm = mat(fp);
            for (auto x : segs) {
                x[0] *= 32, x[2] *= 32, x[1] /= 64, x[3] /= 64;
                if (swap) std::swap(x[0], x[1]), std::swap(x[2], x[3]);
                fs.push_back(x);
                fb.push_back(isIntersectSegPolygon2D({{x[0], x[1]}, {x[2], x[3]}}, fm));
            }
            out(Rec("seg2").put("poly", fp).put("m", 0.0).put("segs", fs).put("blocked", fb));
        }
        out(Rec("seg2").put("poly", p).put("m", 0.0).put("segs", segs).put("blocked", blocked));
    }
    const int n = thorough() ? 600 : 250;
    for (int t = 0; t < n; ++t) {
        const SuperEllipse e = ellipses(r, 1)[0];
        const Eigen::MatrixXd b = e.getOriginShape();
        V2 segs;
        std::vector<bool> blocked;
        auto add = [&](double x0, double y0, double x1, double y1) {
            segs.push_back({x0, y0, x1, y1});
            blocked.push_back(isIntersectSegPolygon2D({{x0, y0}, {x1, y1}}, b));
        };
        for (int j = 0; j < 20; ++j) add(r.u(-22, 22), r.u(-22, 22), r.u(-22, 22), r.u(-22, 22));
        for (int j = 0; j < 8; ++j) {     // through two sampled points, extended on both sides
            int v = r.i(0, b.cols() - 1), w = r.i(0, b.cols() - 1);
            double dx = b(0, w) - b(0, v), dy = b(1, w) - b(1, v);
            add(b(0, v) - 3 * dx, b(1, v) - 3 * dy, b(0, w) + 3 * dx, b(1, w) + 3 * dy);
            add(-30, b(1, v), 30, b(1, v));
            add(b(0, v), -30, b(0, v), 30);
        }
        const Eigen::Vector2d mid = b.rowwise().mean();
        for (int j = 0; j < 4; ++j) {     // around and along the boundary
            const double w = j < 2 ? r.u(-3.2, 3.2) : r.i(0, 3) * 1.5707963267948966 + r.u(-1, 1) * std::pow(10.0, -r.i(1, 5));
            const Eigen::Vector2d d(std::cos(w), std::sin(w)), o = mid + Eigen::Vector2d(r.u(-1, 1), r.u(-1, 1)) * 0.2;
            const auto c = chord(b, o, d);
            if (c.empty()) continue;
            for (const auto& x : spans(r, c)) {
                const Eigen::Vector2d p = o + x.first * d, q = o + x.second * d;
                add(p(0), p(1), q(0), q(1));
            }
        }
        out(Rec("seg2").put("poly", cols(b)).put("m", 1e-7).put("segs", segs).put("blocked", blocked));
    }
}

#include "h_freeseg.hpp"
