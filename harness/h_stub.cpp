// The planner skeleton (HighwayRoadMap::plan and what it calls) driven through histories the
// specification generates: every geometric step is a scripted stand-in.
#include "common.hpp"
#include "hrm/datastructure/MultiBodyTree2D.h"
#include "hrm/planners/HighwayRoadMap.h"
#include "hrm/geometry/SuperEllipse.h"
#include "hrm/util/DistanceMetric.h"
#include <chrono>
#include <functional>
#include <thread>
using namespace hrm;
using namespace hrm::planners;
using V1 = std::vector<double>;
using V2 = std::vector<V1>;
using Base = HighwayRoadMap<MultiBodyTree2D, SuperEllipse>;

static SuperEllipse unitBody() { return SuperEllipse({1, 1}, 1, {0, 0}, 0, 10); }
static std::vector<std::vector<long>> pairs(const Edge& e) {
    std::vector<std::vector<long>> o;
    for (const auto& p : e) o.push_back({long(p.first), long(p.second)});
    return o;
}
static std::vector<long> ids(const std::vector<Index>& v) { return std::vector<long>(v.begin(), v.end()); }

class Scripted : public Base {
  public:
    Scripted(const PlanningRequest& r) : Base(MultiBodyTree2D(unitBody()), {unitBody()}, {}, r) {}
    std::function<void(Scripted&, Index)> slice;
    std::function<void(Scripted&, Index)> exist = [](Scripted&, Index) {};
    std::function<void(Scripted&)> multi = [](Scripted&) {}, sample = [](Scripted&) {};
    std::function<std::vector<Vertex>(Scripted&, const V1&, Index, double)> near;
    std::function<bool(const V1&, const V1&)> free2 = [](const V1&, const V1&) { return true; };
    PlanningResult& res() { return res_; }
    PlannerParameter& par() { return param_; }
    VertexIdx& num() { return numVertex_; }
    void lines(const FreeSegment2D& f) { connectOneSlice2D(f); }

  protected:
    void constructOneSlice(const Index i) override { slice(*this, i); }
    void sampleOrientations() override { sample(*this); }
    void sweepLineProcess() override {}
    void generateVertices(const Coordinate, const FreeSegment2D&) override {}
    void connectMultiSlice() override { multi(*this); }
    void connectExistSlice(const Index i) override { exist(*this, i); }
    void bridgeSlice() override {}
    bool isSameSliceTransitionFree(const V1& a, const V1& b) override { return free2(a, b); }
    bool isMultiSliceTransitionFree(const V1&, const V1&) override { return false; }
    bool isPtInCFree(const Index, const V1&) override { return true; }
    std::vector<Vertex> getNearestNeighborsOnGraph(const V1& v, const Index k, const double rad) override {
        return near(*this, v, k, rad);
    }
    void setTransform(const V1&) override {}
};
static PlanningRequest request(int slices, const V1& s, const V1& g) {
    PlanningRequest q;
    q.parameters.boundaryLimits = {-10, 10, -10, 10};
    q.parameters.numSlice = slices;
    q.parameters.numLineX = 3;
    q.parameters.numLineY = 5;
    q.start = s;
    q.goal = g;
    return q;
}

// ---------------------------------------------------------------- D01
static void oneGraph(Out& out, const V2& v, const std::vector<std::vector<long>>& e, const std::vector<long>& S,
                     const std::vector<long>& G) {
    const V1 st{-5, -5, 0}, go{5, 5, 0};
    Scripted p(request(1, st, go));
    p.slice = [&](Scripted& q, Index) {
        for (const auto& x : v) q.res().graphStructure.vertex.push_back(x);
        for (const auto& x : e) {
            q.res().graphStructure.edge.emplace_back(x[0], x[1]);
            q.res().graphStructure.weight.push_back(vectorEuclidean(v[x[0]], v[x[1]]));
        }
    };
    p.near = [&](Scripted&, const V1& x, Index, double) {
        const auto& l = x == st ? S : G;
        return std::vector<Vertex>(l.begin(), l.end());
    };
    p.plan(0.0);
    const auto& r = p.getPlanningResult();
    out(Rec("graph").put("v", v).put("e", e).put("w", r.graphStructure.weight).put("S", S).put("G", G).put("start", st)
            .put("goal", go).put("solved", r.solved).put("path", ids(r.solutionPath.PathId)).put("cost", r.solutionPath.cost)
            .put("sol", r.solutionPath.solvedPath).put("interp", r.solutionPath.interpolatedPath));
}
static std::vector<long> longs(const JV& v) {
    std::vector<long> o;
    for (const auto& x : v.a) o.push_back(long(x.d));
    return o;
}
static void graphs(Out& out, const char* cases) {
    for (const auto& c : readCases(cases)) {
        std::vector<std::vector<long>> e;
        for (const auto& x : c["e"].a) e.push_back(longs(x));
        oneGraph(out, c["v"].mat(), e, longs(c["s"]), longs(c["g"]));
    }
    Rng r(401);
    const int n = thorough() ? 400 : 60;
    for (int t = 0; t < n; ++t) {
        const int nv = r.i(1, thorough() ? 60 : 40), dim = r.p(0.5) ? 3 : 7;
        V2 v;
        for (int i = 0; i < nv; ++i) {
            V1 x;
            for (int d = 0; d < dim; ++d) x.push_back(r.p(0.5) ? r.i(-3, 3) : r.u(-3, 3));
            if (i && r.p(0.1)) x = v[r.i(0, i - 1)];
            v.push_back(x);
        }
        std::vector<std::vector<long>> e;
        const int ne = r.i(0, r.p(0.5) ? nv : 3 * nv);
        for (int i = 0; i < ne; ++i) e.push_back({r.i(0, nv - 1), r.i(0, nv - 1)});
        std::vector<long> S, G;
        for (int i = r.i(0, 4); i > 0; --i) S.push_back(r.i(0, nv - 1));
        for (int i = r.i(0, 4); i > 0; --i) G.push_back(r.i(0, nv - 1));
        oneGraph(out, v, e, S, G);
    }
}

// ---------------------------------------------------------------- D04, D05: histories of a plan
static std::string digest(const PlanningResult& r, size_t nv, size_t ne) {
    uint64_t h = 1469598103934665603ULL;
    auto add = [&](const void* p, size_t n) {
        for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ULL;
    };
    for (size_t i = 0; i < nv && i < r.graphStructure.vertex.size(); ++i)
        add(r.graphStructure.vertex[i].data(), 8 * r.graphStructure.vertex[i].size());
    for (size_t i = 0; i < ne && i < r.graphStructure.edge.size(); ++i) add(&r.graphStructure.edge[i], sizeof r.graphStructure.edge[i]);
    for (size_t i = 0; i < ne && i < r.graphStructure.weight.size(); ++i) add(&r.graphStructure.weight[i], 8);
    char b[20];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
    return b;
}
static void history(Out& out, const std::vector<long>& outcome, int slices, double limit, const std::vector<long>& cost, double tick) {
    const V1 st{0, 0, 0}, go{1, 1, 0};
    Scripted p(request(slices, st, go));
    size_t step = 0, searches = 0, pv = 0, pe = 0;
    bool inSearch = false;
    using Clk = std::chrono::steady_clock;
    const auto t0 = Clk::now();
    double slept = 0, looked = 0, now = 0;
    auto wall = [&]() { return std::chrono::duration<double>(Clk::now() - t0).count(); };
    auto event = [&](const char* k, long s) {
        const auto& r = p.res();
        inSearch = k[0] == 'n';
        out(Rec(k).put("s", s).put("total", r.planningTime.totalTime).put("solved", r.solved)
                .put("nv", r.graphStructure.vertex.size()).put("ne", r.graphStructure.edge.size())
                .put("nw", r.graphStructure.weight.size()).put("old", digest(r, pv, pe))
                .put("all", digest(r, r.graphStructure.vertex.size(), r.graphStructure.edge.size()))
                .put("lx", p.par().numLineX).put("ly", p.par().numLineY).put("spent", slept + looked));
        pv = r.graphStructure.vertex.size();
        pe = r.graphStructure.edge.size();
    };
    auto spend = [&]() {                       // the scripted cost of this step
        const double a = wall();
        const long c = step < cost.size() ? cost[step] : 1;
        ++step;
        if (c) std::this_thread::sleep_for(std::chrono::duration<double>(c * tick));
        slept += wall() - a;
    };
    p.sample = [&](Scripted&) { event("sample", -1); };
    p.slice = [&](Scripted& q, Index i) {
        event("slice", long(i));
        spend();
        const long a = q.res().graphStructure.vertex.size();
        q.res().graphStructure.vertex.push_back({double(i), 0, 0});
        q.res().graphStructure.vertex.push_back({double(i), 1, 0});
        q.res().graphStructure.edge.emplace_back(a, a + 1);
        q.res().graphStructure.weight.push_back(1.0);
        event("sliced", long(i));
    };
    p.multi = [&](Scripted& q) {
        event("multi", -1);
        spend();
        for (size_t i = 2; i < q.res().graphStructure.vertex.size(); i += 2) {
            q.res().graphStructure.edge.emplace_back(i - 2, i);
            q.res().graphStructure.weight.push_back(vectorEuclidean(q.res().graphStructure.vertex[i - 2], q.res().graphStructure.vertex[i]));
        }
        event("joined", -1);
    };
    p.exist = [&](Scripted& q, Index i) {
        event("exist", long(i));
        spend();
        event("existed", long(i));
    };
    p.near = [&](Scripted& q, const V1& x, Index k, double rad) {
        if (!inSearch) ++searches;             // look-ups in a row belong to one search
        event(x == st ? "nns" : x == go ? "nng" : "nn?", long(k));
        if (x == st && searches % 2 == 0) {
            const double a = wall();
            std::this_thread::sleep_for(std::chrono::duration<double>(tick / 2));
            looked += wall() - a;
        }
        const bool ok = searches <= outcome.size() && outcome[searches - 1];
        std::vector<Vertex> v;
        if (ok || (x != go && searches % 2)) v.push_back(0);
        return v;
    };
    out(Rec("begin").put("n", slices).put("limit", limit).put("lx", p.par().numLineX).put("ly", p.par().numLineY)
            .put("outcome", outcome).put("cost", cost).put("k1", p.par().numSearchNeighbor));
    p.plan(limit);
    now = wall();
    const auto& r = p.res();
    event("result", -1);
    out(Rec("end").put("solved", r.solved).put("build", r.planningTime.buildTime).put("search", r.planningTime.searchTime)
            .put("total", r.planningTime.totalTime).put("slept", slept).put("looked", looked).put("wall", now)
            .put("path", ids(r.solutionPath.PathId)).put("nsol", r.solutionPath.solvedPath.size())
            .put("nint", r.solutionPath.interpolatedPath.size()).put("searches", searches));
}
static void life(Out& out, const char* cases) {
    long k = 0;
    for (const auto& c : readCases(cases)) {
        if (k++ % envInt("SHARDS", 1) != envInt("SHARD", 0)) continue;
        const double tick = 0.004;
        history(out, longs(c["outcome"]), int(c["n"].d), c["limit"].d < 0 ? -1.0 : (c["limit"].d - 0.5) * tick * (c["limit"].d > 0), longs(c["cost"]), tick);
    }
}

int main(int argc, char** argv) {
    Out out(argv[2]);
    const std::string m = argv[1];
    if (m == "graphs") graphs(out, argv[3]);
    else if (m == "life") life(out, argv[3]);
    else return 3;
    return 0;
}
