// Planar planners run on many scenes; what they computed is recorded for the specification.
#include "scene2.hpp"
#include <memory>
using W2 = WatchAll<HRM2D>;
static std::unique_ptr<W2> watch(const Scene2& s) { return std::unique_ptr<W2>(new W2(*s.robot, s.arena, s.obs, s.req)); }
static void refineFor(W2& p, long rounds) {
    p.forced = true;
    p.failSearches = long(p.par().numSlice) * (rounds + 1) - 1;
    if (rounds == 0) p.failSearches = 0;
}
static Rec& world(Rec& r, const Scene2& s) {
    return r.put("bodies", reference(*s.robot)).put("arena", shapes(s.arena)).put("obs", shapes(s.obs));
}
static std::vector<J> polys(const std::vector<BoundaryPoints>& b) {
    std::vector<J> o;
    for (const auto& m : b) o.push_back(J(js(cols(m))));
    return o;
}
static std::vector<J> sliceRecs(const std::vector<BoundaryInfo>& all) {
    std::vector<J> o;
    for (const auto& b : all) o.push_back(Rec().put("arena", polys(b.arena)).put("obs", polys(b.obstacle)).json());
    return o;
}

// a sweep line just below the top or above the bottom of a C-obstacle
static void graze(Scene2& s, Rng& r) {
    if (s.obs.empty()) return;
    auto p = watch(s);
    p->plan(0.0);
    const auto& all = p->getCSpaceBoundary();
    const auto& sl = all[r.i(0, int(all.size()) - 1)].obstacle;
    const int nb = int(sl.size() / s.obs.size());
    if (nb < 1) return;
    const int k = r.i(0, int(s.obs.size()) - 1);
    const auto& m = sl[size_t(k) * nb];
    const bool top = r.p(0.5);
    const double y = top ? m.row(1).maxCoeff() : m.row(1).minCoeff();
    const auto& q = s.req.parameters;
    const double gap = (q.boundaryLimits[3] - q.boundaryLimits[2]) / (double(q.numLineY) - 1);
    const double line = q.boundaryLimits[2] + gap * std::round((y - q.boundaryLimits[2]) / gap);
    const double d = line - y + (top ? 1 : -1) * r.pick(V1{1e-4, 1e-3, 1e-2, -1e-3});
    auto c = s.obs[k].getPosition();
    s.obs[k].setPosition({c[0], c[1] + d});
}
// ---------------------------------------------------------------- C01, C02, C03, C05, C06, C07, D05
static void maps(Out& out, const std::string& kind, uint64_t salt, int quick, int deep, int maxRounds, int num = 36, int maxLines = 11) {
    Rng r(salt);
    const int n = thorough() ? deep : quick;
    const long sh = envInt("SHARDS", 1), me = envInt("SHARD", 0);
    for (int t = 0; t < n; ++t) {
        Scene2 s = scene2(r, 2, 4, num);
        if (s.req.parameters.numLineY > maxLines) s.req.parameters.numLineY = maxLines;
        const long rounds = r.i(0, maxRounds);
        if (t % sh != me) continue;
        if (rounds && s.req.parameters.numLineY > 6) s.req.parameters.numLineY = 4;
        if (t % 4 == 3) graze(s, r);
        away(s, r);
        auto p = watch(s);
        refineFor(*p, rounds);
        p->run(1e6);
        Rec rec(kind.c_str());
        world(rec, s);
        param(rec, s.req.parameters);
        graph(rec, p->R());
        rec.put("blocks", blockRecs(p->blocks)).put("slices", sliceRecs(p->getCSpaceBoundary())).put("multi", p->multi)
            .put("rounds", rounds);
        out(rec);
    }
}
// the containment planner: its C-slices are those of a larger base
static void kc(Out& out) {
    Rng r(520);
    const int n = thorough() ? 60 : 12;
    for (int t = 0; t < n; ++t) {
        Scene2 s = scene2(r, 0, 3);
        if (s.req.parameters.numSlice < 2) s.req.parameters.numSlice = 2;
        away(s, r);
        Watch<HRM2DKC> p(*s.robot, s.arena, s.obs, s.req);
        p.plan(0.0);
        Rec rec("kc");
        world(rec, s);
        param(rec, s.req.parameters);
        graph(rec, p.R());
        rec.put("blocks", blockRecs(p.blocks)).put("slices", sliceRecs(p.getCSpaceBoundary()));
        out(rec);
    }
}

// ---------------------------------------------------------------- C04
static void bridges(Out& out, const std::string& kind) {
    Rng r(504);
    const int n = thorough() ? 160 : 28;
    const long sh = envInt("SHARDS", 1), me = envInt("SHARD", 0);
    for (int t = 0; t < n; ++t) {
        Scene2 s = scene2(r, 2, 4, 40);
        s.req.parameters.numSlice = r.i(2, 7);
        s.req.parameters.numLineY = r.i(3, 8);
        if (s.obs.empty()) s.obs.push_back(SuperEllipse({3, 1}, 0.8, {2, 1}, 0.4, 40));
        if (t % 4 == 3) {                        // small turns of a rod between close lines around obstacles
            s.req.parameters.numSlice = r.i(13, 18);
            s.req.parameters.numLineY = r.i(3, 5);
            s.robot.reset(new MultiBodyTree2D(SuperEllipse({r.u(2, 4), r.u(0.3, 0.6)}, 1, {0, 0}, 0, 40)));
            if (r.p(0.5)) s.robot->addBody(SuperEllipse({r.u(1, 2), 0.4}, 1, {r.u(-3, 3), r.u(-1, 1)}, r.u(-3, 3), 40));
            const auto& c = s.obs.back().getPosition();
            const auto& a = s.obs.back().getSemiAxis();
            s.req.parameters.boundaryLimits[2] = c[1] - a[1] - r.u(0.5, 2);
            s.req.parameters.boundaryLimits[3] = c[1] + a[1] + r.u(0.5, 2);
        }
        if (t % sh != me) continue;
        away(s, r);
        auto p = watch(s);
        std::vector<J> br;
        p->onBridge = [&](W2& w) {
            struct Peek : W2 { using W2::tfe_; using W2::bridgeSliceBound_; };
            auto& q = static_cast<Peek&>(w);
            std::vector<J> b;
            for (const auto& x : q.bridgeSliceBound_) b.push_back(J(js(polys(x.obstacle))));
            br.push_back(Rec().put("tfe", shapes(q.tfe_)).put("e0", long(q.R().graphStructure.edge.size())).put("b", b).json());
        };
        p->plan(0.0);
        Rec rec(kind.c_str());
        world(rec, s);
        param(rec, s.req.parameters);
        graph(rec, p->R());
        rec.put("blocks", blockRecs(p->blocks)).put("bridges", br).put("multi", p->multi);
        out(rec);
    }
}

// ---------------------------------------------------------------- D01, D03
static void found(Out& out) {
    Rng r(511);
    const int n = thorough() ? 300 : 50;
    for (int t = 0; t < n; ++t) {
        Scene2 s = scene2(r);
        away(s, r);
        auto p = watch(s);
        p->keepLooks = true;
        const long rounds = t % 4 == 0 ? 1 : 0;
        p->plan(rounds ? 0.02 : 0.0);
        const auto& R = p->R();
        // the attached vertices of the last search
        std::vector<long> S, G;
        for (const auto& l : p->looks) (l.q == s.req.start ? S : G) = l.res;
        Rec rec("found");
        graph(rec, R);
        rec.put("S", S).put("G", G).put("start", s.req.start).put("goal", s.req.goal).put("solved", R.solved)
            .put("path", ids(R.solutionPath.PathId)).put("cost", R.solutionPath.cost).put("sol", R.solutionPath.solvedPath)
            .put("interp", R.solutionPath.interpolatedPath);
        out(rec);
    }
}

// ---------------------------------------------------------------- D02
static void nearest(Out& out) {
    Rng r(512);
    const int n = thorough() ? 200 : 40;
    for (int t = 0; t < n; ++t) {
        Scene2 s = scene2(r);
        const bool many = t % 8 == 5;                     // headings close to each other
        if (many) s.req.parameters.numSlice = size_t(r.i(44, 70)), s.req.parameters.numLineY = 3;
        away(s, r);
        auto p = watch(s);
        p->keepLooks = true;
        const long rounds = !many && t % 3 == 0;
        refineFor(*p, rounds);
        p->run(1e6);
        std::vector<J> qs;
        auto put = [&](const Look& l) {
            qs.push_back(Rec().put("q", l.q).put("k", l.k).put("radius", l.radius).put("res", l.res).put("nv", l.nv)
                             .put("ly", l.ly).json());
        };
        for (size_t i = 0; i < p->looks.size() && i < 6; ++i) put(asked(p->looks[i], s.req.parameters));
        const auto& v = p->R().graphStructure.vertex;
        const auto& L = s.req.parameters.boundaryLimits;
        const bool far = L[0] > 0 || L[1] < 0 || L[2] > 0 || L[3] < 0;
        const double mx = far ? (L[0] + L[1]) / 2 : 0, my = far ? (L[2] + L[3]) / 2 : 0;
        for (int k = 0; k < 18; ++k) {
            V1 q = {mx + r.u(-20, 20), my + r.u(-14, 14), r.u(-PIX, PIX)};
            if (k % 3 == 0 && !v.empty()) { q = v[r.i(0, int(v.size()) - 1)]; if (k % 2) q[0] += r.u(-1, 1), q[1] += r.u(-1, 1); }
            Index kk = r.i(1, 8);
            double rad = r.pick(V1{0.2, 0.7, 1.0, HALF_PI, 3, 7});
            if (many && k % 2) kk = r.i(1, 3), rad = r.u(0.05, 0.3);
            if (k >= 10 && v.size() > 1) {               // a heading almost halfway between those of two vertices
                const double a = v[r.i(0, int(v.size()) - 1)][2], b = v[r.i(0, int(v.size()) - 1)][2];
                q[2] = a + r.u(0.45, 0.55) * (b - a);
                if (r.p(0.5)) kk = 1, rad = 0.2;
            }
            if (k >= 14 && !v.empty()) {                 // close to the first or last vertex of all, in every slice
                const auto& x = k % 2 ? v.front() : v.back();
                q[0] = x[0] + r.u(-0.1, 0.1);
                q[1] = x[1] + r.u(-0.1, 0.1);
                if (k < 16) q[2] = x[2];
                kk = r.i(4, 8), rad = 7;
            }
            const auto res = p->near(q, kk, rad);
            put({q, long(kk), rad, std::vector<long>(res.begin(), res.end()), long(v.size()), 0, long(p->par().numLineY)});
        }
        Rec rec("near2");
        param(rec, s.req.parameters);
        rec.put("v", v).put("blocks", blockRecs(p->blocks)).put("queries", qs);
        out(rec);
    }
    // before anything is built
    for (int t = 0; t < 3; ++t) {
        Scene2 s = scene2(r);
        auto p = watch(s);
        const auto res = p->near({0, 0, 0}, 3, 1.0);
        Rec rec("near2");
        param(rec, s.req.parameters);
        std::vector<J> qs{Rec().put("q", V1{0, 0, 0}).put("k", 3).put("radius", 1.0)
                              .put("res", std::vector<long>(res.begin(), res.end())).put("nv", 0).put("ly", long(p->par().numLineY)).json()};
        rec.put("v", V2{}).put("blocks", std::vector<J>{}).put("queries", qs);
        out(rec);
    }
}

// ---------------------------------------------------------------- D07
static J request(const PlanningRequest& q) {
    Rec rec;
    param(rec, q.parameters);
    return rec.put("start", q.start).put("goal", q.goal).put("rigid", q.isRobotRigid).json();
}
static J inputs(const Scene2& s) {
    Rec rec;
    return world(rec, s).put("now", bodies(*s.robot)).put("req", request(s.req)).json();
}
static J answer(const PlanningResult& R) {
    Rec rec;
    graph(rec, R);
    return rec.put("solved", R.solved).put("path", ids(R.solutionPath.PathId)).put("cost", R.solutionPath.cost)
        .put("sol", R.solutionPath.solvedPath).put("interp", R.solutionPath.interpolatedPath).json();
}
static void repeat(Out& out) {
    Rng r(517);
    const int n = thorough() ? 120 : 24;
    for (int t = 0; t < n; ++t) {
        Scene2 s = scene2(r), other = scene2(r);
        away(s, r);
        const J before = inputs(s);
        auto a = watch(s);
        if (t % 3 == 1) {                       // another planner in between, of another shape
            auto o = watch(other);
            refineFor(*o, 1);
            o->run(1e6);
        }
        const long rounds = t % 5 == 0;
        auto go = [&](W2& w) { if (rounds) { refineFor(w, rounds); w.run(1e6); } else w.plan(0.0); };
        go(*a);
        const J ra = answer(a->R());
        auto b = watch(s);
        std::unique_ptr<W2> c = watch(s);       // created first, run last
        if (t % 3 == 2) { auto o = watch(other); o->plan(0.0); }
        go(*b);
        go(*c);
        Rec rec("repeat");
        rec.put("a", ra).put("b", answer(b->R())).put("c", answer(c->R())).put("kept", answer(a->R()))
            .put("before", before).put("after", inputs(s));
        told(rec, *a, s, long(s.req.parameters.numSlice), rounds);
        out(rec);
        if (t % 2 == 0) {
            if (s.req.parameters.numSlice < 2) s.req.parameters.numSlice = 2;
            const J b4 = inputs(s);
            Watch<HRM2DKC> k1(*s.robot, s.arena, s.obs, s.req), k2(*s.robot, s.arena, s.obs, s.req);
            k1.plan(0.0);
            k2.plan(0.0);
            Rec kc("repeat");
            kc.put("a", answer(k1.R())).put("b", answer(k2.R())).put("c", answer(k2.R())).put("kept", answer(k1.R()))
                .put("before", b4).put("after", inputs(s));
            told(kc, k1, s, long(s.req.parameters.numSlice), 0);
            out(kc);
        }
    }
}

// the same plans in the one and in the other order, each time in a fresh process
static void orders(Out& out) {
    Rng r(519);
    for (int t = 0; t < (thorough() ? 200 : 40); ++t) {
        Scene2 x = scene2(r, 1), y = scene2(r, 1);
        if (t % 4) {                            // the same robot, in another scene or with other parameters
            y.robot.reset(new MultiBodyTree2D(*x.robot));
            y.req.parameters.numSlice = x.req.parameters.numSlice = r.i(2, 4);
            if (t % 2) { y.arena = x.arena; y.obs = x.obs; y.req.parameters.boundaryLimits = x.req.parameters.boundaryLimits; }
            if (t % 3 == 0) { y.req.parameters.numLineY = x.req.parameters.numLineY; y.req.parameters.numPoint = x.req.parameters.numPoint; }
        }
        const bool kc = t % 5 == 4;
        if (kc)
            for (Scene2* s : {&x, &y}) if (s->req.parameters.numSlice < 2) s->req.parameters.numSlice = 2;
        auto plan = [kc](Scene2& s) -> std::function<J()> {
            return [kc, &s] {
                if (kc) { Watch<HRM2DKC> w(*s.robot, s.arena, s.obs, s.req); w.plan(0.0); return answer(w.R()); }
                auto w = watch(s);
                w->plan(0.0);
                return answer(w->R());
            };
        };
        const auto a = alone({plan(x), plan(y)}), b = alone({plan(y), plan(x)});
        out(Rec("order").put("a", a).put("b", std::vector<J>{b[1], b[0]}));
    }
}

// ---------------------------------------------------------------- A04 through the planner
static void moves(Out& out) {
    Rng r(503);
    const int n = thorough() ? 60 : 12;
    for (int t = 0; t < n; ++t) {
        Scene2 s = scene2(r, 1, 3, 16);
        s.req.parameters.numSlice = 1;
        auto p = watch(s);
        p->plan(0.0);
        std::vector<J> segs, fr;
        const auto& b = p->bound();
        for (int k = 0; k < 40; ++k) {
            V1 a{r.u(-18, 18), r.u(-13, 13), -PI}, c{r.u(-18, 18), r.u(-13, 13), -PI};
            if (k % 4 == 0 && !b.obstacle.empty()) {     // through sampled points of the boundary
                const auto& m = b.obstacle[r.i(0, int(b.obstacle.size()) - 1)];
                const auto x = m.col(r.i(0, int(m.cols()) - 1));
                if (k % 8 == 0) c[0] = 2 * x(0) - a[0], c[1] = 2 * x(1) - a[1];
                else if (k % 8 == 4) a[1] = c[1] = x(1);
            }
            if (k % 9 == 0) c[0] = a[0];
            segs.push_back(J(js(V1{a[0], a[1], c[0], c[1]})));
            fr.push_back(J(js(p->sameFree(a, c))));
        }
        for (const auto& m : b.obstacle) {      // around and along a boundary
            const Eigen::Vector2d mid = m.rowwise().mean();
            for (int k = 0; k < 4; ++k) {
                const double w = k % 2 ? r.u(-3.2, 3.2) : r.i(0, 3) * PI / 2 + r.u(-1, 1) * std::pow(10.0, -r.i(1, 5));
                const Eigen::Vector2d d(std::cos(w), std::sin(w)), o = mid + Eigen::Vector2d(r.u(-.2, .2), r.u(-.2, .2));
                const auto c = chord(m, o, d);
                if (c.empty()) continue;
                for (const auto& x : spans(r, c)) {
                    const Eigen::Vector2d f = o + x.first * d, g = o + x.second * d;
                    segs.push_back(J(js(V1{f(0), f(1), g(0), g(1)})));
                    fr.push_back(J(js(p->sameFree({f(0), f(1), -PI}, {g(0), g(1), -PI}))));
                }
            }
        }
        std::vector<J> ps = polys(b.obstacle);
        out(Rec("plan2").put("polys", ps).put("segs", segs).put("free", fr).put("m", 1e-6));
    }
}

int main(int argc, char** argv) {
    Out out(argv[2]);
    const std::string m = argv[1];
    if (m == "c01") { maps(out, "c01", 501, 16, 80, 0, 30); kc(out); }
    else if (m == "c02") maps(out, "c02", 502, 36, 200, 1);
    else if (m == "c03") maps(out, "c03", 503, 36, 200, 1, 28);
    else if (m == "c04") bridges(out, "c04");
    else if (m == "c05") { maps(out, "c05", 505, 60, 300, 2); kc(out); }
    else if (m == "c06") { maps(out, "c06", 506, 30, 160, 0, 28, 7); bridges(out, "joined"); }
    else if (m == "c07") maps(out, "c07", 507, 60, 300, 0, 12, 3);
    else if (m == "d05") maps(out, "d05", 508, 24, 120, 2, 24, 4);
    else if (m == "kc") kc(out);
    else if (m == "found") found(out);
    else if (m == "near") nearest(out);
    else if (m == "repeat") { repeat(out); orders(out); }
    else if (m == "moves") moves(out);
    else return 3;
    return 0;
}
