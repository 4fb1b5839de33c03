// A planner that can be watched: the protected virtual steps are passed on to the real planner and
// noted, nothing is replaced unless asked for.
#pragma once
#include "geo.hpp"
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM2DKC.h"
#include "hrm/planners/HRM3D.h"
#include "hrm/planners/HRM3DAblation.h"
#include "hrm/planners/ProbHRM3D.h"
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
using namespace hrm;
using namespace hrm::planners;
using V1 = std::vector<double>;
using V2 = std::vector<V1>;

inline std::vector<std::vector<long>> pairs(const Edge& e) {
    std::vector<std::vector<long>> o;
    for (const auto& p : e) o.push_back({long(p.first), long(p.second)});
    return o;
}
inline std::vector<long> ids(const std::vector<Index>& v) { return std::vector<long>(v.begin(), v.end()); }

struct Block {
    long round, s, from, to;              // vertices of one constructed slice
    long e0, e1;                          // edges added while constructing it
    std::vector<std::vector<long>> sweep; // vertices of the sweep lines: from, to per plane
    std::vector<long> exist{0, 0};        // edges added when joining it to the earlier round
    long lx, ly;
};
struct Look {
    V1 q;
    long k;
    double radius;
    std::vector<long> res;
    long nv, lx, ly;
    long nq = 0;                          // orientations so far
};
// the planner looks up its start and goal as the request says
inline Look asked(Look l, const PlannerParameter& p) {
    l.k = long(p.numSearchNeighbor);
    l.radius = p.searchRadius;
    return l;
}
struct Event {
    std::string e;
    long a;
    long nv;                              // configurations kept
    double total;                         // time reported so far
    bool solved;
    double spent;                         // time that construction and look-ups took so far
};

struct Enough {};                              // nothing to attach to: end the plan here

template <class P>
class Watch : public P {
  public:
    using P::P;
    std::vector<Block> blocks;
    std::vector<Look> looks;
    std::vector<Event> log;
    std::vector<std::vector<long>> multi;      // edges before and after connecting slices
    double spent = 0, wall = 0;
    bool keepLooks = false;
    long failSearches = 0;                      // pretend that nothing is near for this many searches,
    bool forced = false;                        // then attach both ends to the first vertex
    std::function<void(Watch&)> onSlice;
    bool run(double limit) {
        const auto then = Clk::now();
        try { this->plan(limit); } catch (const Enough&) { return false; }
        wall = since(then);
        return true;
    }
    const PlanningResult& R() const { return this->res_; }
    const PlannerParameter& par() const { return this->param_; }
    std::vector<Vertex> near(const V1& q, Index k, double rad) { return P::getNearestNeighborsOnGraph(q, k, rad); }
    bool sameFree(const V1& a, const V1& b) { return P::isSameSliceTransitionFree(a, b); }
    const BoundaryInfo& bound() const { return this->sliceBound_; }

  protected:
    using Clk = std::chrono::steady_clock;
    static double since(Clk::time_point t) { return std::chrono::duration<double>(Clk::now() - t).count(); }
    void note(const char* e, long a) {
        log.push_back({e, a, long(this->v_.size()), this->res_.planningTime.totalTime, this->res_.solved, spent});
    }
    template <class Q>
    static auto turnsOf(const Q& q, int) -> decltype(long(q.q_.size())) { return long(q.q_.size()); }
    template <class Q>
    static long turnsOf(const Q&, long) { return 0; }
    void constructOneSlice(const Index s) override {
        Block b;
        b.s = long(s);
        b.round = 0;
        for (const auto& o : blocks)
            if (o.s == b.s) b.round = o.round + 1;
        b.from = long(this->res_.graphStructure.vertex.size());
        b.e0 = long(this->res_.graphStructure.edge.size());
        blocks.push_back(b);
        note("slice", long(s));
        const auto then = Clk::now();
        P::constructOneSlice(s);
        spent += since(then);
        Block& c = blocks.back();
        c.to = long(this->res_.graphStructure.vertex.size());
        c.e1 = long(this->res_.graphStructure.edge.size());
        c.lx = long(this->param_.numLineX);
        c.ly = long(this->param_.numLineY);
        if (onSlice) onSlice(*this);
    }
    void generateVertices(const Coordinate tx, const FreeSegment2D& f) override {
        const long a = long(this->res_.graphStructure.vertex.size());
        P::generateVertices(tx, f);
        if (!blocks.empty()) blocks.back().sweep.push_back({a, long(this->res_.graphStructure.vertex.size())});
    }
    std::vector<Vertex> getNearestNeighborsOnGraph(const V1& q, const Index k, const double rad) override {
        const auto then = Clk::now();
        auto r = P::getNearestNeighborsOnGraph(q, k, rad);
        spent += since(then);
        note(q == this->start_ ? "start" : "goal", long(r.size()));
        if (keepLooks)
            looks.push_back({q, long(k), rad, std::vector<long>(r.begin(), r.end()), long(this->res_.graphStructure.vertex.size()),
                             long(this->param_.numLineX), long(this->param_.numLineY), turnsOf(*this, 0)});
        if (forced) {
            // look-ups for one number of constructed slices belong to one search
            r.clear();
            if (long(blocks.size()) > failSearches) {
                if (this->res_.graphStructure.vertex.empty()) throw Enough();
                r.push_back(0);
            }
        }
        return r;
    }
};
// also the steps the containment planner keeps to itself
template <class P>
class WatchAll : public Watch<P> {
  public:
    using Watch<P>::Watch;
    std::function<void(WatchAll&)> onBridge;

  protected:
    void connectMultiSlice() override {
        const long a = long(this->res_.graphStructure.edge.size());
        this->note("join", 0);
        P::connectMultiSlice();
        this->multi.push_back({a, long(this->res_.graphStructure.edge.size())});
    }
    void connectExistSlice(const Index s) override {
        const long a = long(this->res_.graphStructure.edge.size());
        this->note("grow", long(s));
        P::connectExistSlice(s);
        if (!this->blocks.empty()) this->blocks.back().exist = {a, long(this->res_.graphStructure.edge.size())};
    }
    void bridgeSlice() override {
        P::bridgeSlice();
        if (onBridge) onBridge(*this);
    }
};
inline std::vector<J> blockRecs(const std::vector<Block>& b) {
    std::vector<J> o;
    for (const auto& x : b)
        o.push_back(Rec().put("round", x.round).put("s", x.s).put("from", x.from).put("to", x.to).put("e0", x.e0).put("e1", x.e1)
                        .put("sweep", x.sweep).put("exist", x.exist).put("lx", x.lx).put("ly", x.ly).json());
    return o;
}
inline Rec& graph(Rec& r, const PlanningResult& p) {
    return r.put("v", p.graphStructure.vertex).put("e", pairs(p.graphStructure.edge)).put("w", p.graphStructure.weight);
}
inline Rec& param(Rec& r, const PlannerParameter& p) {
    return r.put("lim", p.boundaryLimits).put("n", long(p.numSlice)).put("lx", long(p.numLineX)).put("ly", long(p.numLineY))
        .put("points", long(p.numPoint)).put("k1", long(p.numSearchNeighbor)).put("radius", p.searchRadius);
}

// What a planner tells about itself, and what it was given (n: slices, rounds: refinements so far)
template <class P, class S> void told(Rec& r, const P& p, const S& s, long n, long rounds) {
    Rec a, b;
    PlannerParameter want = s.req.parameters;
    want.numSlice = n;
    want.numLineX <<= rounds;
    want.numLineY <<= rounds;
    r.put("told", param(a, p.getPlannerParameters()).put("start", p.getStart()).put("goal", p.getGoal())
                      .put("arena", shapes(p.getArena())).put("obs", shapes(p.getObstacle()))
                      .put("links", long(p.getRobot().getNumLinks())).put("bounds", long(p.getCSpaceBoundary().size())).json());
    r.put("asked", param(b, want).put("start", s.req.start).put("goal", s.req.goal)
                       .put("arena", shapes(s.arena)).put("obs", shapes(s.obs))
                       .put("links", long(s.robot->getNumLinks())).put("bounds", n).json());
}

// Answers of computations done one after the other in a process of their own
inline std::vector<J> alone(const std::vector<std::function<J()>>& todo) {
    int fd[2];
    if (pipe(fd)) exit(3);
    const pid_t child = fork();
    if (child == 0) {
        std::string all;
        for (const auto& f : todo) all += f().s + "\n";
        for (size_t k = 0; k < all.size();) {
            const ssize_t n = write(fd[1], all.data() + k, all.size() - k);
            if (n <= 0) _exit(3);
            k += size_t(n);
        }
        _exit(0);
    }
    close(fd[1]);
    std::string all;
    char buf[65536];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) all.append(buf, size_t(n));
    close(fd[0]);
    int st = 0;
    waitpid(child, &st, 0);
    if (st != 0) { fprintf(stderr, "a planner did not survive alone: status %d\n", st); exit(4); }
    std::vector<J> o;
    std::istringstream in(all);
    for (std::string l; std::getline(in, l);) o.push_back(J(l));
    return o;
}
