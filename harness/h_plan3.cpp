// Spatial planners (rigid, articulated, with explicit collision checks) run on many scenes; what they
// computed is recorded for the specification.
#include "scene3.hpp"
#include "hrm/util/EllipsoidSQCollisionFCL.h"
#include <ctime>
#include <memory>
#include <ompl/util/Console.h>
#include <ompl/util/RandomNumbers.h>
static const double PIX = 3.14159265358979323846;
// random orientations are seeded by the clock: keep runs reproducible
static long clockSeed = 1;
extern "C" time_t time(time_t* t) noexcept {
    const time_t v = 1000000 + envInt("VERIF_SEED", 1) * 7919 + clockSeed;
    if (t) *t = v;
    return v;
}

template <class P>
struct Peek : P {
    using P::P;
    using P::q_;
    using P::v_;
};
using W3 = WatchAll<HRM3D>;
using WA = WatchAll<HRM3DAblation<HRM3D>>;
using WP = WatchAll<ProbHRM3D>;
using WPA = WatchAll<HRM3DAblation<ProbHRM3D>>;
template <class W>
static std::unique_ptr<W> watch(const Scene3& s) {
    ++clockSeed;
    return std::unique_ptr<W>(new W(*s.robot, s.arena, s.obs, s.req));
}
template <>
std::unique_ptr<WP> watch<WP>(const Scene3& s) {
    ++clockSeed;
    return std::unique_ptr<WP>(new WP(*s.robot, s.urdf, s.arena, s.obs, s.req));
}
template <>
std::unique_ptr<WPA> watch<WPA>(const Scene3& s) {
    ++clockSeed;
    return std::unique_ptr<WPA>(new WPA(*s.robot, s.urdf, s.arena, s.obs, s.req));
}
template <class W>
static void failFor(W& p, long blocks) {
    p.forced = true;
    p.failSearches = blocks;
}
static std::vector<V1> bodies(const MultiBodyTree3D& r) {
    std::vector<V1> v{shape(r.getBase())};
    for (const auto& l : r.getLinks()) v.push_back(shape(l));
    return v;
}
static Rec& world(Rec& rec, const Scene3& s) {
    std::vector<V1> b{shape(s.base)};
    for (const auto& l : s.links) b.push_back(shape(l));
    V2 given;
    for (const auto& q : s.base.getQuatSamples()) given.push_back(qvec(q));
    return rec.put("bodies", b).put("off", s.off).put("joints", s.joints).put("arena", shapes(s.arena)).put("obs", shapes(s.obs))
        .put("given", given);
}
template <class W>
static V2 turns(W& w) {
    V2 o;
    for (const auto& q : static_cast<Peek<W>&>(w).q_) o.push_back(qvec(q));
    return o;
}
template <class W>
static V2 confs(W& w) { return static_cast<Peek<W>&>(w).v_; }

struct Faces {                                       // triangle lists, each written once
    std::vector<std::string> seen;
    int id(const MeshMatrix& m) {
        const std::string s = js(ints(rows(m.faces)));
        for (size_t k = 0; k < seen.size(); ++k)
            if (seen[k] == s) return int(k) + 1;
        seen.push_back(s);
        return int(seen.size());
    }
    std::vector<J> list() const {
        std::vector<J> o;
        for (const auto& s : seen) o.push_back(J(s));
        return o;
    }
};
static J meshRec(Faces& fs, const MeshMatrix& m) { return Rec().put("v", cols(m.vertices)).put("f", fs.id(m)).json(); }
static J meshRecs(Faces& fs, const std::vector<MeshMatrix>& v) {
    std::vector<J> o;
    for (const auto& m : v) o.push_back(meshRec(fs, m));
    return J(js(o));
}
static std::vector<J> clouds(const std::vector<BoundaryPoints>& b) {
    std::vector<J> o;
    for (const auto& m : b) o.push_back(J(js(cols(m))));
    return o;
}
template <class W>
static Rec& slices(Rec& rec, W& w) {
    Faces fs;
    std::vector<J> o;
    for (size_t k = 0; k < w.getCSpaceBoundary().size(); ++k) {
        const auto& m = w.getSliceBoundaryMesh(k);
        o.push_back(Rec().put("arena", meshRecs(fs, m.arena)).put("obs", meshRecs(fs, m.obstacle)).json());
    }
    return rec.put("slices", o).put("fs", fs.list());
}
template <class W>
static Rec& points(Rec& rec, W& w) {
    std::vector<J> o;
    for (size_t k = 0; k < w.getCSpaceBoundary().size(); ++k) {
        const auto& b = w.getSliceBoundary(k);
        o.push_back(Rec().put("arena", clouds(b.arena)).put("obs", clouds(b.obstacle)).json());
    }
    return rec.put("clouds", o);
}
template <class W>
static Rec& base(Rec& rec, W& w, const Scene3& s, const char* planner) {
    world(rec, s);
    param(rec, s.req.parameters);
    rec.put("planner", planner).put("quats", turns(w)).put("confs", confs(w));
    graph(rec, w.R());
    return rec.put("blocks", blockRecs(w.blocks)).put("multi", w.multi).put("rigid", s.req.isRobotRigid);
}
template <class F>
static void each(uint64_t salt, int quick, int deep, F f) {
    Rng r(salt);
    const int n = thorough() ? deep : quick;
    const long sh = envInt("SHARDS", 1), me = envInt("SHARD", 0);
    for (int t = 0; t < n; ++t) {
        Rng q(salt * 7919 + 13 * t);
        clockSeed = long(salt) * 1000 + t;
        ompl::RNG::setSeed(uint_fast32_t(salt * 1000 + t + 1));
        if (t % sh == me) f(t, q);
    }
}

static void turned(Scene3& s, const std::vector<Eigen::Quaterniond>& q) {
    s.base.setQuatSamples(q);
    s.robot.reset(new MultiBodyTree3D(s.base));
    for (const auto& l : s.links) s.robot->addBody(l);
}
// many given orientations on few lines
static void manyTurns(Scene3& s, Rng& r) {
    std::vector<Eigen::Quaterniond> q;
    for (int n = r.i(6, 10); n > 0; --n)
        q.push_back(q.empty() || r.p(0.6) ? rquat(r) : (r.pick(q) * Eigen::Quaterniond(Eigen::AngleAxisd(r.u(0.2, 0.9), rquat(r).vec().normalized()))).normalized());
    turned(s, q);
    s.req.parameters.numLineX = r.i(2, 3);
    s.req.parameters.numLineY = r.i(2, 3);
}

// ---------------------------------------------------------------- C01, C02, C03, C05, C06, C07, D05
static void mapsOf(Out& out, const char* kind, uint64_t salt, int quick, int deep, int maxRounds, bool meshes, bool pts) {
    each(salt, quick, deep, [&](int t, Rng& r) {
        const bool moving = t % 3 == 2;
        Scene3 s = scene3(r, moving);
        const bool many = !moving && salt == 605 && t % 6 == 1;
        if (many) manyTurns(s, r);
        away(s, r);
        const long rounds = many ? 0 : r.i(0, maxRounds);
        auto go = [&](auto& w, const char* name) {
            const long n = moving ? r.i(1, 5) : long(s.base.getQuatSamples().empty() ? s.req.parameters.numSlice : s.base.getQuatSamples().size());
            failFor(w, moving ? n - 1 : rounds ? n * (rounds + 1) - 1 : 0);
            w.run(1e6);
            Rec rec(kind);
            base(rec, w, s, name);
            rec.put("rounds", moving ? 0L : rounds);
            if (meshes) slices(rec, w);
            if (pts) points(rec, w);
            out(rec);
        };
        if (t % 12 == 8) go(*watch<WPA>(s), "proba");
        else if (moving) go(*watch<WP>(s), "prob");
        else if (t % 9 == 4) go(*watch<WA>(s), "ablation");
        else go(*watch<W3>(s), "rigid");
    });
}

// a small plan refined many times
static void deeper(Out& out) {
    each(620, 6, 24, [&](int t, Rng& r) {
        Scene3 s = scene3(r, false, 1, 1, 5);
        s.base.setQuatSamples(t % 2 ? std::vector<Eigen::Quaterniond>{rquat(r)} : std::vector<Eigen::Quaterniond>{rquat(r), rquat(r)});
        s.robot.reset(new MultiBodyTree3D(s.base));
        for (const auto& l : s.links) s.robot->addBody(l);
        auto& p = s.req.parameters;
        p.numLineX = p.numLineY = 2;
        p.numPoint = 5;
        const long n = long(s.base.getQuatSamples().size()), rounds = 3;
        auto w = watch<W3>(s);
        failFor(*w, n * (rounds + 1) - 1);
        w->run(1e6);
        Rec rec("d05");
        base(rec, *w, s, "rigid");
        slices(rec, *w);
        rec.put("rounds", rounds);
        out(rec);
    });
}

// an articulated plan is refined once it has sixty slices
static void grown(Out& out) {
    each(618, 3, 16, [&](int t, Rng& r) {
        Scene3 s = scene3(r, true, 2, 1, 5);
        s.req.parameters.numLineX = s.req.parameters.numLineY = 2;
        if (s.obs.empty()) s.obs.push_back(quadric(r, 1, 3, 5, 5, 4, 5));
        auto w = watch<WP>(s);
        failFor(*w, t % 3 == 0 ? 126 : r.i(61, 122));
        w->run(1e6);
        Rec rec("d05");
        base(rec, *w, s, "prob");
        slices(rec, *w);
        rec.put("rounds", 1L);
        out(rec);
    });
}

// ---------------------------------------------------------------- C04, C06 between slices
static void bridgesOf(Out& out, const char* kind, uint64_t salt, int quick, int deep) {
    each(salt, quick, deep, [&](int t, Rng& r) {
        const int which = t % 8 == 7 ? 4 : t % 4;      // 0, 1: rigid, 2: articulated, 3: explicit checks, 4: both
        const bool moving = which == 2 || which == 4;
        Scene3 s = scene3(r, moving, 2, 2, 8);
        auto& p = s.req.parameters;
        p.numLineX = r.i(2, 4);
        p.numLineY = r.i(2, 4);
        p.numPoint = r.i(2, 4);
        // bodies of very different sizes and proportions: small base with large links, rods and plates
        auto stretch = [&](SuperQuadrics& b, double lo, double hi) {
            V1 a;
            for (int k = 0; k < 3; ++k) a.push_back(r.p(0.5) ? r.u(0.3, 0.6) : r.u(lo, hi));
            b.setSemiAxis(a);
        };
        if (t % 8 >= 2) {
            stretch(s.base, 0.4, r.p(0.5) ? 2.5 : 0.6);
            for (auto& l : s.links) stretch(l, 0.8, 2.2);
            s.robot.reset(new MultiBodyTree3D(s.base));
            for (const auto& l : s.links) s.robot->addBody(l);
        }
        if (!moving) {
            std::vector<Eigen::Quaterniond> q;
            for (int n = r.i(2, 4); n > 0; --n)
                q.push_back(q.empty() || r.p(0.3) ? rquat(r) : (q.back() * Eigen::Quaterniond(Eigen::AngleAxisd(r.u(0.2, 1.2), rquat(r).vec().normalized()))).normalized());
            turned(s, q);
            if (salt == 609 && t % 8 == 1) manyTurns(s, r);
        }
        if (s.obs.empty() || t % 3 == 1) s.obs.push_back(quadric(r, 1, 3, 4, 4, 4, 8));
        if (t % 2 && !s.obs.empty()) {                   // close lines around an obstacle
            const auto& o = s.obs.back();
            for (int c = 0; c < 3; ++c) {
                const double m = o.getPosition()[c], w = o.getSemiAxis()[c] + r.u(1, 4);
                p.boundaryLimits[2 * c] = m - w;
                p.boundaryLimits[2 * c + 1] = m + w;
            }
        }
        if (salt == 604 && (t % 16 == 9 || t % 16 == 11 || t % 32 == 4)) {   // grains on the way of a small link
            const double a = r.u(0.08, 0.15), b = r.u(0.08, 0.12), far = r.u(2, 3);
            s.base.setSemiAxis({a, a, r.u(0.08, 0.2)});
            p.numPoint = r.i(7, 12);
            p.numLineX = p.numLineY = 2;
            const auto q0 = rquat(r), q1 = q0 * Eigen::Quaterniond(Eigen::AngleAxisd(r.u(1, 2), rquat(r).vec().normalized()));
            SuperQuadrics l({b, b, b}, {1, 1}, {far, 0, 0}, Eigen::Quaterniond::Identity(), 8);
            s.links = {l};
            s.off = {{far, 0, 0, 1, 0, 0, 0}};
            turned(s, {q0, q1.normalized()});
            const auto& c = s.arena[0].getPosition();
            p.boundaryLimits = {c[0] - 5, c[0] + 5, c[1] - 5, c[1] + 5, c[2] - 5, c[2] + 5};
            s.obs.clear();
            for (int x = -1; x <= 1; x += 2)
                for (int y = -1; y <= 1; y += 2) {
                    const int m = r.i(1, int(p.numPoint) - 1);
                    const Eigen::Vector3d at = Eigen::Vector3d(c[0] + 5 * x, c[1] + 5 * y, c[2]) + q0.slerp(double(m) / p.numPoint, q1) * Eigen::Vector3d(far, 0, 0);
                    s.obs.push_back(SuperQuadrics({r.u(0.05, 0.1), r.u(0.05, 0.1), r.u(0.05, 0.1)}, {1, 1}, {at(0), at(1), at(2)}, rquat(r), 8));
                }
        }
        if (salt == 609 && !moving && t % 4 == 0) {       // a long body turning near the arena's border
            s.base.setSemiAxis({r.u(0.3, 0.5), r.u(0.3, 0.5), r.u(1.5, 2.5)});
            s.links.clear();
            s.off.clear();
            turned(s, s.base.getQuatSamples());
            s.obs.erase(s.obs.begin() + 1, s.obs.end());
            s.obs[0].setSemiAxis({0.5, 0.5, 0.5});
            const auto& a = s.arena[0].getSemiAxis();
            const auto& c = s.arena[0].getPosition();
            for (int k = 0; k < 3; ++k) {
                p.boundaryLimits[2 * k] = c[k] - a[k] + r.u(0.6, 2);
                p.boundaryLimits[2 * k + 1] = c[k] + a[k] - r.u(0.6, 2);
            }
            p.numLineX = r.i(3, 5);
            p.numLineY = r.i(3, 5);
        }
        away(s, r);
        auto go = [&](auto& w, const char* name, long n) {
            Faces fs;
            std::vector<J> br;
            using W = std::decay_t<decltype(w)>;
            struct Look2 : W { using W::tfe_; using W::bridgeSliceBound_; };
            w.onBridge = [&](W& x) {
                auto& q = static_cast<Look2&>(x);
                std::vector<J> b;
                for (const auto& m : q.bridgeSliceBound_) b.push_back(meshRecs(fs, m));
                br.push_back(Rec().put("tfe", shapes(q.tfe_)).put("e0", long(q.R().graphStructure.edge.size())).put("b", b).json());
            };
            failFor(w, n);
            w.run(1e6);
            Rec rec(kind);
            base(rec, w, s, name);
            std::vector<V2> hulls;
            if (which >= 3)
                for (const auto& o : s.obs) {
                    SuperQuadrics at(o.getSemiAxis(), o.getEpsilon(), {0, 0, 0}, Eigen::Quaterniond::Identity(), o.getNumParam());
                    hulls.push_back(cols(at.getOriginShape()));
                }
            rec.put("bridges", br).put("fs", fs.list()).put("hulls", hulls);
            out(rec);
        };
        if (which == 2) go(*watch<WP>(s), "prob", r.i(2, 4));
        else if (which == 4) go(*watch<WPA>(s), "proba", r.i(2, 4));
        else if (which == 3) go(*watch<WA>(s), "ablation", 0);
        else go(*watch<W3>(s), "rigid", 0);
    });
}

// ---------------------------------------------------------------- D01, D03
static void found(Out& out) {
    each(611, 60, 300, [&](int t, Rng& r) {
        const bool moving = t % 3 == 2;
        Scene3 s = scene3(r, moving);
        if (t % 2) s.req.parameters.searchRadius = 7, s.req.parameters.numSearchNeighbor = 8;
        if (t % 4 == 1 && s.obs.size() > 1) s.obs.erase(s.obs.begin() + 1, s.obs.end());
        away(s, r);
        auto go = [&](auto& w) {
            w.keepLooks = true;
            if (moving && t % 2) {
                const int want = r.i(1, 4);
                w.keepLooks = true;
                w.failSearches = want;
                w.forced = false;
                w.plan(0.02);
            } else
                w.plan(t % 5 == 0 ? 0.01 : 0.0);
            const auto& R = w.R();
            std::vector<long> S, G;
            for (const auto& l : w.looks) (l.q == s.req.start ? S : G) = l.res;
            Rec rec("found");
            graph(rec, R);
            rec.put("S", S).put("G", G).put("start", s.req.start).put("goal", s.req.goal).put("solved", R.solved)
                .put("path", ids(R.solutionPath.PathId)).put("cost", R.solutionPath.cost).put("sol", R.solutionPath.solvedPath)
                .put("interp", R.solutionPath.interpolatedPath);
            out(rec);
        };
        if (moving) go(*watch<WP>(s));
        else if (t % 6 == 4) go(*watch<WA>(s));
        else go(*watch<W3>(s));
    });
}

// ---------------------------------------------------------------- D02
static void nearest(Out& out) {
    each(612, 30, 160, [&](int t, Rng& r) {
        const bool moving = t % 4 == 3;
        Scene3 s = scene3(r, moving);
        if (t % 4 == 1) {                                // slices of only some orientations have vertices
            const double h = r.u(0.7, 1.2);
            s.base.setSemiAxis({0.5, 1.0, r.u(1, 1.4)});
            s.obs.clear();
            for (int k = -1; k <= 1; k += 2)
                s.obs.push_back(SuperQuadrics({20, 20, 5}, {r.u(0.5, 1), 1}, {0, 0, k * (5 + h)}, Eigen::Quaterniond::Identity(), 10));
            s.req.parameters.boundaryLimits[4] = -5 - h;
            s.req.parameters.boundaryLimits[5] = 5 + h;
            std::vector<Eigen::Quaterniond> q;
            for (int n = r.i(3, 6); n > 0; --n) q.push_back(rquat(r));
            s.base.setQuatSamples(q);
            s.links.clear();
            s.off.clear();
            s.robot.reset(new MultiBodyTree3D(s.base));
        }
        if (t % 8 == 2) {                                // slices of nearly the same orientation
            std::vector<Eigen::Quaterniond> q{rquat(r)};
            for (int n = r.i(2, 5); n > 0; --n) {
                const Eigen::Vector3d axis = Eigen::Vector3d(r.u(-1, 1), r.u(-1, 1), r.u(0.1, 1)).normalized();
                q.push_back(q[r.i(0, int(q.size()) - 1)] * Eigen::Quaterniond(Eigen::AngleAxisd(std::pow(10.0, -r.u(0.7, 3)), axis)));
            }
            s.base.setQuatSamples(q);
            s.robot.reset(new MultiBodyTree3D(s.base));
            for (const auto& l : s.links) s.robot->addBody(l);
        }
        const bool many = t % 16 == 3;                    // more C-slices than usual
        if (many) s.req.parameters.numLineX = s.req.parameters.numLineY = 2;
        away(s, r);
        auto go = [&](auto& w) {
            w.keepLooks = true;
            const long rounds = !moving && t % 3 == 0;
            const long n = moving ? many ? r.i(41, 56) : r.i(1, 6) : long(s.base.getQuatSamples().empty() ? s.req.parameters.numSlice : s.base.getQuatSamples().size());
            failFor(w, moving ? n - 1 : rounds ? 2 * n - 1 : 0);
            w.run(1e6);
            std::vector<J> qs;
            auto put = [&](const Look& l) {
                qs.push_back(Rec().put("q", l.q).put("k", l.k).put("radius", l.radius).put("res", l.res).put("nv", l.nv).put("lx", l.lx)
                                 .put("ly", l.ly).put("nq", l.nq).json());
            };
            for (size_t i = 0; i < w.looks.size() && i < 6; ++i) put(asked(w.looks[i], s.req.parameters));
            const auto& v = w.R().graphStructure.vertex;
            const long nq = long(turns(w).size());
            for (int k = 0; k < 16; ++k) {
                V1 q = randomConfig(r, s.req.parameters.boundaryLimits, s.dof);
                if (k % 3 == 0 && !v.empty()) {
                    q = v[r.i(0, int(v.size()) - 1)];
                    if (k % 2) q[0] += r.u(-1, 1), q[1] += r.u(-1, 1);
                    if (k % 4 == 0) for (int m = 3; m < 7; ++m) q[m] = -q[m];
                }
                Index kk = r.i(1, 6);
                double rad = r.pick(V1{0.2, 0.7, 1.0, HALF_PI, 3, 7});
                if (k >= 10 && v.size() > 1) {           // an orientation almost halfway between those of two vertices
                    const auto& a = v[r.i(0, int(v.size()) - 1)];
                    const auto& b = v[r.i(0, int(v.size()) - 1)];
                    const auto m = Eigen::Quaterniond(a[3], a[4], a[5], a[6]).slerp(r.u(0.45, 0.55), Eigen::Quaterniond(b[3], b[4], b[5], b[6]));
                    q[3] = m.w(), q[4] = m.x(), q[5] = m.y(), q[6] = m.z();
                    if (r.p(0.5)) kk = 1, rad = 0.2;
                }
                if (k >= 14 && !v.empty()) {             // close to the first or last vertex of all, in every slice
                    const auto& x = k % 2 ? v.front() : v.back();
                    for (int m = 0; m < 3; ++m) q[m] = x[m] + r.u(-0.1, 0.1);
                    for (int m = 3; m < 7 && r.p(0.9); ++m) q[m] = x[m];
                    kk = r.i(4, 8), rad = 7;
                }
                const auto res = w.near(q, kk, rad);
                put({q, long(kk), rad, std::vector<long>(res.begin(), res.end()), long(v.size()), long(w.par().numLineX), long(w.par().numLineY), nq});
            }
            Rec rec("near3");
            base(rec, w, s, moving ? "prob" : "rigid").put("queries", qs);
            out(rec);
        };
        if (moving) go(*watch<WP>(s));
        else go(*watch<W3>(s));
    });
}

// ---------------------------------------------------------------- D06
static void prob(Out& out) {
    each(616, 36, 200, [&](int t, Rng& r) {
        Scene3 s = scene3(r, true);
        auto& p = s.req.parameters;
        const bool longRun = t % 12 == 11;
        if (longRun) {
            p.numLineX = p.numLineY = 2;
            s.obs.clear();
            if (t == 23 || t == 35) p.numPoint = t == 23 ? 3 : 2;
        }
        for (auto* c : {&s.req.start, &s.req.goal})      // joints near or at their limits
            for (size_t k = 7; k < c->size(); ++k)
                if (r.p(0.25)) (*c)[k] = r.pick(V1{-1, 1}) * (r.p(0.5) ? HALF_PI : r.u(1.4, 1.57));
        away(s, r);
        auto w = watch<WP>(s);
        w->keepLooks = true;
        bool whole = true;
        double limit = 1e6;
        if (t % 4 == 3 && !longRun) {                  // real searches and a time limit
            limit = r.pick(V1{0, 0.005, 0.03});
            w->run(limit);
        } else {
            failFor(*w, longRun ? t == 11 ? 59 : t == 23 ? 364 : t == 35 ? 362 : r.i(61, 190) : r.i(0, 8));
            whole = w->run(limit);
        }
        if (!whole) return;
        Rec rec("prob");
        base(rec, *w, s, "prob");
        std::vector<J> log;
        for (const auto& e : w->log) log.push_back(Rec().put("e", e.e).put("a", e.a).put("nv", e.nv).put("total", e.total).put("solved", e.solved).put("spent", e.spent).json());
        rec.put("spent", w->spent).put("wall", w->wall).put("log", log).put("limit", limit).put("forced", w->forced).put("solved", w->R().solved).put("total", w->R().planningTime.totalTime)
            .put("build", w->R().planningTime.buildTime).put("search", w->R().planningTime.searchTime)
            .put("start", s.req.start).put("goal", s.req.goal).put("dof", s.dof);
        out(rec);
    });
}

// ---------------------------------------------------------------- D07
static J request(const PlanningRequest& q) {
    Rec rec;
    param(rec, q.parameters);
    return rec.put("start", q.start).put("goal", q.goal).put("rigid", q.isRobotRigid).json();
}
static J inputs(const Scene3& s) {
    Rec rec;
    V2 now = bodies(*s.robot), given;
    for (const auto& q : s.robot->getBase().getQuatSamples()) given.push_back(qvec(q));
    return rec.put("now", now).put("given", given).put("arena", shapes(s.arena)).put("obs", shapes(s.obs)).put("req", request(s.req)).json();
}
static J answer(const PlanningResult& R) {
    Rec rec;
    graph(rec, R);
    return rec.put("solved", R.solved).put("path", ids(R.solutionPath.PathId)).put("cost", R.solutionPath.cost)
        .put("sol", R.solutionPath.solvedPath).put("interp", R.solutionPath.interpolatedPath).json();
}
static void repeat(Out& out) {
    each(617, 24, 120, [&](int t, Rng& r) {
        Scene3 s = scene3(r), other = scene3(r), arm = scene3(r, true);
        if (s.base.getQuatSamples().empty()) {
            s.base.setQuatSamples({rquat(r), rquat(r), rquat(r)});
            s.robot.reset(new MultiBodyTree3D(s.base));
            for (const auto& l : s.links) s.robot->addBody(l);
        }
        away(s, r);
        const J before = inputs(s);
        auto go = [&](auto tag) {
            using W = decltype(tag);
            auto a = watch<typename W::type>(s);
            if (t % 4 == 1) { auto o = watch<W3>(other); o->plan(0.0); }
            if (t % 4 == 2) { auto o = watch<WP>(arm); failFor(*o, 2); o->run(1e6); }
            const long n = long(s.base.getQuatSamples().size());
            auto run = [&](auto& w) { if (t % 5 == 0) { failFor(w, 2 * n - 1); w.run(1e6); } else w.plan(0.0); };
            run(*a);
            const J ra = answer(a->R());
            auto b = watch<typename W::type>(s);
            auto c = watch<typename W::type>(s);
            if (t % 4 == 3) { auto o = watch<WA>(other); o->plan(0.0); }
            run(*b);
            run(*c);
            Rec rec("repeat");
            rec.put("a", ra).put("b", answer(b->R())).put("c", answer(c->R())).put("kept", answer(a->R()))
                .put("before", before).put("after", inputs(s));
            told(rec, *a, s, n, t % 5 == 0 ? 1 : 0);
            out(rec);
        };
        struct T3 { using type = W3; };
        struct TA { using type = WA; };
        if (t % 3 == 2) go(TA()); else go(T3());
        // an articulated plan leaves its inputs alone, too
        const J b4 = inputs(arm);
        auto w = watch<WP>(arm);
        failFor(*w, 2);
        w->run(1e6);
        const J x = answer(w->R());
        Rec rec("repeat");
        rec.put("a", x).put("b", x).put("c", x).put("kept", x).put("before", b4).put("after", inputs(arm));
        told(rec, *w, arm, long(w->getPlannerParameters().numSlice), 0);
        out(rec);
    });
}

// the same plans in the one and in the other order, each time in a fresh process
static void orders(Out& out) {
    each(619, 32, 160, [&](int t, Rng& r) {
        Scene3 x = scene3(r, false, 1), y = scene3(r, false, 1);
        auto robot = [&](Scene3& s, const SuperQuadrics& b, const std::vector<SuperQuadrics>& l) {
            s.base = b;
            s.links = l;
            s.robot.reset(new MultiBodyTree3D(b));
            for (const auto& k : l) s.robot->addBody(k);
        };
        std::vector<Eigen::Quaterniond> q;
        for (int k = r.i(2, 4); k > 0; --k) q.push_back(rquat(r));
        auto b = x.base;
        b.setQuatSamples(q);
        robot(x, b, x.links);
        if (t % 4) {                            // the same robot, in another scene or with other parameters
            robot(y, b, x.links);
            if (t % 2) { y.arena = x.arena; y.obs = x.obs; y.req.parameters.boundaryLimits = x.req.parameters.boundaryLimits; }
            if (t % 3 == 0) { y.req.parameters.numLineX = x.req.parameters.numLineX; y.req.parameters.numLineY = x.req.parameters.numLineY;
                              y.req.parameters.numPoint = x.req.parameters.numPoint; }
        } else {
            auto c = y.base;
            if (t % 8 == 0) c.setQuatSamples(q);
            else { auto p = q; p.push_back(rquat(r)); c.setQuatSamples(p); }
            robot(y, c, y.links);
        }
        auto plan = [t](Scene3& s) -> std::function<J()> {
            return [t, &s] {
                if (t % 3 == 2) { auto w = watch<WA>(s); w->plan(0.0); return answer(w->R()); }
                auto w = watch<W3>(s);
                w->plan(0.0);
                return answer(w->R());
            };
        };
        const auto a = alone({plan(x), plan(y)}), c = alone({plan(y), plan(x)});
        out(Rec("order").put("a", a).put("b", std::vector<J>{c[1], c[0]}));
    });
}

// ---------------------------------------------------------------- A04 in space, through the planner
static void moves(Out& out) {
    each(604, 30, 120, [&](int, Rng& r) {
        Scene3 s = scene3(r, false, 1, 2, 8);
        s.base.setQuatSamples({rquat(r)});
        s.robot.reset(new MultiBodyTree3D(s.base));
        for (const auto& l : s.links) s.robot->addBody(l);
        auto w = watch<W3>(s);
        w->plan(0.0);
        const auto& M = w->getSliceBoundaryMesh(0).obstacle;
        V2 segs;
        std::vector<bool> fr;
        std::vector<J> free;
        for (int k = 0; k < 40; ++k) {
            V1 a{r.u(-12, 12), r.u(-11, 11), r.u(-10, 10), 1, 0, 0, 0}, b{r.u(-12, 12), r.u(-11, 11), r.u(-10, 10), 1, 0, 0, 0};
            if (k % 3 == 0 && !M.empty()) {              // through a vertex, or the middle of a boundary
                const auto& m = M[r.i(0, int(M.size()) - 1)];
                Eigen::Vector3d c = m.vertices.col(r.i(0, int(m.vertices.cols()) - 1));
                if (k % 2) c = m.vertices.rowwise().mean();
                for (int x = 0; x < 3; ++x) b[x] = 2 * c(x) - a[x];
            }
            if (k % 5 == 0) b[0] = a[0], b[1] = a[1];
            segs.push_back({a[0], a[1], a[2], b[0], b[1], b[2]});
            free.push_back(J(js(w->sameFree(a, b))));
        }
        for (const auto& m : M) {               // around and along a boundary
            const Eigen::Vector3d mid = m.vertices.rowwise().mean();
            for (int k = 0; k < 4; ++k) {
                Eigen::Vector3d d(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
                if (k % 2) {
                    d *= std::pow(10.0, -r.i(1, 4));
                    d(r.i(0, 2)) = 1;
                }
                d.normalize();
                const Eigen::Vector3d o = mid + Eigen::Vector3d(r.u(-.5, .5), r.u(-.5, .5), r.u(-.5, .5));
                const auto c = chord(m.vertices, m.faces, o, d);
                if (c.empty() || c[1] - c[0] < 1e-3) continue;
                for (const auto& x : spans(r, c)) {
                    const Eigen::Vector3d f = o + x.first * d, g = o + x.second * d;
                    segs.push_back({f(0), f(1), f(2), g(0), g(1), g(2)});
                    free.push_back(J(js(w->sameFree({f(0), f(1), f(2), 1, 0, 0, 0}, {g(0), g(1), g(2), 1, 0, 0, 0}))));
                }
            }
        }
        Faces fs;
        Rec rec("plan3");
        const J ms = meshRecs(fs, M);
        rec.put("meshes", ms).put("fs", fs.list()).put("segs", segs).put("free", free);
        out(rec);
    });
}

int main(int argc, char** argv) {
    ompl::msg::noOutputHandler();
    Out out(argv[2]);
    const std::string m = argv[1];
    if (m == "c01") mapsOf(out, "c01", 601, 24, 120, 0, true, true);
    else if (m == "c02") mapsOf(out, "c02", 602, 36, 180, 1, true, false);
    else if (m == "c03") mapsOf(out, "c03", 603, 36, 180, 1, true, false);
    else if (m == "c04") bridgesOf(out, "c04", 604, 64, 400);
    else if (m == "c05") mapsOf(out, "c05", 605, 60, 300, 2, false, false);
    else if (m == "c06") { mapsOf(out, "c06", 606, 30, 160, 0, true, false); bridgesOf(out, "joined", 609, 32, 200); }
    else if (m == "c07") mapsOf(out, "c07", 607, 60, 300, 0, false, false);
    else if (m == "d05") { mapsOf(out, "d05", 608, 48, 160, 2, true, false); grown(out); deeper(out); }
    else if (m == "found") found(out);
    else if (m == "near") nearest(out);
    else if (m == "prob") prob(out);
    else if (m == "repeat") { repeat(out); orders(out); }
    else if (m == "moves") moves(out);
    else return 3;
    return 0;
}
