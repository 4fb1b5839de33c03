// The sampling-based planners: which states they accept, how configurations become states, and what
// they report over histories of queries.
#include "scene2.hpp"
#include "scene3.hpp"
#include "hrm/planners/ompl_interface/OMPL2D.h"
#include "hrm/planners/ompl_interface/OMPL3D.h"
#include "hrm/planners/ompl_interface/OMPL3DArticulated.h"
#include "hrm/util/EllipsoidSQCollisionFCL.h"
#include <atomic>
#include <chrono>
#include <ompl/base/DiscreteMotionValidator.h>
#include <ompl/util/Console.h>
#include <ompl/util/RandomNumbers.h>
namespace oi = hrm::planners::ompl_interface;
namespace ob = ompl::base;

// every motion asked for, and its answer
struct Count : ob::DiscreteMotionValidator {
    using ob::DiscreteMotionValidator::DiscreteMotionValidator;
    mutable std::atomic<long> all{0}, good{0};
    bool note(bool a) const { ++all; good += a; return a; }
    bool checkMotion(const ob::State* a, const ob::State* b) const override { return note(ob::DiscreteMotionValidator::checkMotion(a, b)); }
    bool checkMotion(const ob::State* a, const ob::State* b, std::pair<ob::State*, double>& l) const override {
        return note(ob::DiscreteMotionValidator::checkMotion(a, b, l));
    }
};
template <class P>
struct Open : P {
    using P::P;
    std::shared_ptr<Count> counting() {
        auto c = std::make_shared<Count>(P::ss_->getSpaceInformation());
        P::ss_->getSpaceInformation()->setMotionValidator(c);
        P::ss_->setup();
        return c;
    }
    std::string algorithm() const { return P::ss_->getPlanner()->getName(); }
    std::string sampler() const { return P::ss_->getSpaceInformation()->allocValidStateSampler()->getName(); }
    V1 back(const V1& c) const {
        ob::ScopedState<ob::CompoundStateSpace> s(P::ss_->getStateSpace());
        P::setStateFromVector(&c, &s);
        return P::setVectorFromState(s.get());
    }
    // the exploration itself: its configurations, and the pairs of them it joined
    void explored(V2& v, V2& joined) const {
        ob::PlannerData pd(P::ss_->getSpaceInformation());
        P::ss_->getPlannerData(pd);
        for (unsigned k = 0; k < pd.numVertices(); ++k) v.push_back(P::setVectorFromState(pd.getVertex(k).getState()));
        for (unsigned k = 0; k < pd.numVertices(); ++k) {
            std::vector<unsigned> to;
            pd.getEdges(k, to);
            for (unsigned w : to) joined.push_back(both(v[k], v[w]));
        }
    }
    static V1 both(V1 a, const V1& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
    double took() const { return P::ss_->getLastPlanComputationTime(); }
    bool exact() const { return P::ss_->haveExactSolutionPath(); }
    bool valid(const V1& c) const {
        ob::ScopedState<ob::CompoundStateSpace> s(P::ss_->getStateSpace());
        P::setStateFromVector(&c, &s);
        return P::ss_->getSpaceInformation()->isValid(s.get());
    }
};
struct In2 {
    Scene2 s;
    V1 lo, hi;
    std::unique_ptr<Open<oi::OMPL2D>> p;
    bool moving = false;
    static const char* tag() { return "2"; }
    In2(Rng& r, int, bool round = false) : s(scene2(r, 2, 4, 24)) {
        away(s, r);
        const auto& l = s.req.parameters.boundaryLimits;
        lo = {l[0], l[2]};
        hi = {l[1], l[3]};
        if (round)
            for (auto& o : s.obs) o = SuperEllipse(o.getSemiAxis(), 1, o.getPosition(), o.getAngle(), 24);
    }
    double mid(int k) const { return (lo[k] + hi[k]) / 2; }
    void mix(Rng& r) {                                    // both kinds of obstacles, a small robot
        s.robot.reset(new MultiBodyTree2D(SuperEllipse({r.u(0.5, 0.9), r.u(0.5, 0.9)}, 1, {0, 0}, 0, 24)));
        s.obs.clear();
        for (int k = r.i(0, 1), n = k + r.i(2, 4); k < n; ++k)
            s.obs.push_back(SuperEllipse({r.u(2, 5), r.u(2, 4)}, k % 2 ? r.u(0.2, 0.5) : 1.0, {mid(0) + r.u(-9, 9), mid(1) + r.u(-7, 7)}, r.u(-3, 3), 24));
    }
    V2 rim(Rng& r) const {                                // centres close to the corners of obstacles
        V2 o;
        for (const auto& b : s.obs) {
            const Eigen::MatrixXd m = b.getOriginShape();
            Eigen::Vector2d c(b.getPosition()[0], b.getPosition()[1]), x = m.col(r.i(0, int(m.cols()) - 1));
            if (r.p(0.7))
                for (int k = 0; k < m.cols(); ++k)
                    if ((m.col(k) - c).norm() > (x - c).norm() + 1e-3 || r.p(0.02)) x = m.col(k);
            x = c + r.u(0.75, 1.1) * (x - c);
            o.push_back({x(0), x(1)});
        }
        return o;
    }
    void make() { p.reset(new Open<oi::OMPL2D>(lo, hi, *s.robot, s.arena, s.obs)); }
    V1 conf(Rng& r) const { return {r.u(lo[0], hi[0]), r.u(lo[1], hi[1]), r.u(-PIX, PIX)}; }
    V1 at(const V1& c, const V1& q) const { return {q[0], q[1], c[2]}; }
    V1 wild(Rng& r) const { return {mid(0) + r.u(-30, 30), mid(1) + r.u(-30, 30), r.u(-20, 20)}; }
    Rec& world(Rec& rec) const {
        return rec.put("bodies", reference(*s.robot)).put("obs", shapes(s.obs)).put("lo", lo).put("hi", hi).put("dof", 0);
    }
};
template <class P>
struct In3 {
    Scene3 s;
    V1 lo, hi;
    std::vector<Mesh> mesh;
    std::unique_ptr<Open<P>> p;
    static const char* tag() { return "3"; }
    In3(Rng& r, int, bool round = false) : s(scene3(r, !std::is_same<P, oi::OMPL3D>::value, 2, 3, 9)) {
        if (!(s.obs.size() == 2 && s.obs[0].getSemiAxis()[0] > 15)) away(s, r);
        const auto& l = s.req.parameters.boundaryLimits;
        lo = {l[0], l[2], l[4]};
        hi = {l[1], l[3], l[5]};
        if (s.obs.size() == 2 && s.obs[0].getSemiAxis()[0] > 15) s.obs.pop_back();
        if (round)
            for (auto& o : s.obs) o = SuperQuadrics(o.getSemiAxis(), {1, 1}, o.getPosition(), o.getQuaternion(), 9);
        for (const auto& o : s.obs) mesh.push_back(getMeshFromSQ(o));
    }
    double mid(int k) const { return (lo[k] + hi[k]) / 2; }
    void mix(Rng& r) {
        s.obs.clear();
        mesh.clear();
        for (int k = r.i(0, 1), n = k + r.i(2, 3); k < n; ++k) {
            s.obs.push_back(SuperQuadrics({r.u(2, 4), r.u(2, 4), r.u(2, 4)}, k % 2 ? V1{r.p(0.5) ? r.u(0.2, 0.5) : 1, r.u(0.2, 0.5)} : V1{1, 1},
                                          {mid(0) + r.u(-6, 6), mid(1) + r.u(-6, 6), mid(2) + r.u(-6, 6)}, rquat(r), 9));
            mesh.push_back(getMeshFromSQ(s.obs.back()));
        }
    }
    V2 rim(Rng& r) const {
        V2 o;
        for (const auto& b : s.obs) {
            const Eigen::MatrixXd m = b.getOriginShape();
            Eigen::Vector3d c(b.getPosition().data()), x = m.col(r.i(0, int(m.cols()) - 1));
            if (r.p(0.7))
                for (int k = 0; k < m.cols(); ++k)
                    if ((m.col(k) - c).norm() > (x - c).norm() + 1e-3 || r.p(0.01)) x = m.col(k);
            x = c + r.u(0.85, 1.15) * (x - c);
            o.push_back({x(0), x(1), x(2)});
        }
        return o;
    }
    void make();
    V1 conf(Rng& r) const { return randomConfig(r, s.req.parameters.boundaryLimits, s.dof); }
    V1 at(V1 c, const V1& q) const {
        for (int k = 0; k < 3; ++k) c[k] = q[k];
        return c;
    }
    V1 wild(Rng& r) const {
        V1 c = conf(r);
        for (int k = 0; k < 3; ++k) c[k] = mid(k) + r.u(-25, 25);
        if (r.p(0.5))
            for (int k = 3; k < 7; ++k) c[k] *= 2.5;
        for (size_t k = 7; k < c.size(); ++k) c[k] = r.u(-5, 5);
        return c;
    }
    Rec& world(Rec& rec) const {
        std::vector<V1> b{shape(s.base)};
        for (const auto& l : s.links) b.push_back(shape(l));
        std::vector<V2> hulls;
        for (const auto& o : s.obs) {
            V2 h;
            for (const auto& v : getMeshFromSQ(SuperQuadrics(o.getSemiAxis(), o.getEpsilon(), {0, 0, 0}, Eigen::Quaterniond::Identity(), o.getNumParam())).vertices)
                h.push_back({v(0), v(1), v(2)});
            hulls.push_back(h);
        }
        return rec.put("bodies", b).put("off", s.off).put("joints", s.joints).put("obs", shapes(s.obs)).put("hulls", hulls)
            .put("lo", lo).put("hi", hi).put("dof", s.dof).put("planner", "ompl");
    }
};
template <>
void In3<oi::OMPL3D>::make() { p.reset(new Open<oi::OMPL3D>(lo, hi, *s.robot, s.arena, s.obs, mesh)); }
template <>
void In3<oi::OMPL3DArticulated>::make() {
    p.reset(new Open<oi::OMPL3DArticulated>(lo, hi, *s.robot, s.urdf, s.arena, s.obs, mesh));
}

// ---------------------------------------------------------------- E01
template <class I>
static void states(Out& out, Rng& r, int t, int n) {
    I in(r, t, t % 4 == 3);
    if (t % 4 == 1) in.mix(r);
    in.make();
    in.p->setup(2, 0);
    Rec rec((std::string("valid") + I::tag()).c_str());
    in.world(rec);
    V2 cs;
    std::vector<bool> ok;
    auto note = [&](const V1& c) {
        cs.push_back(in.p->back(c));
        ok.push_back(in.p->valid(c));
        return bool(ok.back());
    };
    for (int k = 0; k < n; ++k) {
        const V1 c = in.conf(r);
        const bool a = note(c);
        if (in.s.obs.empty() || k % 3 == 0) continue;
        // towards an obstacle, to where the answer changes
        const auto& o = in.s.obs[r.i(0, int(in.s.obs.size()) - 1)].getPosition();
        V1 from = c, to = in.at(c, V1(o.begin(), o.end()));
        if (in.p->valid(to) || !a) { note(to); continue; }
        for (int h = 0; h < 12; ++h) {
            V1 m = from;
            for (size_t d = 0; d < m.size(); ++d) m[d] = (from[d] + to[d]) / 2;
            (in.p->valid(m) ? from : to) = m;
        }
        for (double w : {-0.3, 0.3, -0.1, 0.1}) {
            V1 m = from;
            double len = 0;
            for (size_t d = 0; d < o.size(); ++d) len += (c[d] - o[d]) * (c[d] - o[d]);
            for (size_t d = 0; d < o.size(); ++d) m[d] += w * (c[d] - o[d]) / std::sqrt(len);
            note(m);
        }
    }
    for (int k = n / 6; k > 0; --k)
        for (const auto& x : in.rim(r)) note(in.at(in.conf(r), x));
    if (!cs.empty()) {                                    // and again, in the opposite order
        for (int k = int(cs.size()) - 1; k >= 0; k -= 5) note(V1(cs[k]));
    }
    V2 given, got;
    for (int k = 0; k < 6; ++k) {
        given.push_back(k % 2 ? in.wild(r) : in.conf(r));
        got.push_back(in.p->back(given.back()));
    }
    rec.put("c", cs).put("ok", ok).put("given", given).put("got", got);
    out(rec);
}

// ---------------------------------------------------------------- E02
// some entries of a list, each with the one of another list that comes closest
static std::vector<V2> closest(const V2& some, const V2& all) {
    std::vector<V2> o;
    for (size_t j = 0; j < some.size(); j += 1 + some.size() / 10) {
        V2 best{some[j]};
        double least = 1e300;
        for (const auto& x : all) {
            double d = x.size() == some[j].size() ? 0 : 1e200;
            for (size_t k = 0; k < x.size() && k < some[j].size(); ++k) d += std::fabs(x[k] - some[j][k]);
            if (d < least) least = d, best = {some[j], x};
        }
        o.push_back(best);
    }
    return o;
}
template <class I>
static void queries(Out& out, Rng& r, int t, const JV& c) {
    I in(r, t, t % 3 == 0);
    in.make();
    // SBL and KPIECE need a projection, which the articulated space does not have
    const int planner = t % (in.s.req.isRobotRigid ? 7 : 5), sampler = (t / 7) % 5;
    in.p->setup(planner, sampler);
    Rec rec((std::string("query") + I::tag()).c_str());
    in.world(rec);
    std::vector<V1> ends;
    V1 bad;
    for (int k = 0; k < 3000 && (ends.size() < 4 || bad.empty()); ++k) {
        const V1 x = in.conf(r);
        if (!in.p->valid(x)) bad = x;
        else if (ends.size() < 4) ends.push_back(x);
    }
    if (ends.size() < 4) return;
    std::vector<J> qs;
    for (size_t k = 0; k < c["h"].size(); ++k) {
        const std::string h = c["h"][k].s;
        auto end = [&](char e) { return e == 'x' && !bad.empty() ? bad : ends[(e == 'x' ? 'd' : e) - 'a']; };
        const V1 from = end(h[0]), to = end(h[1]);
        in.p->plan(from, to, 0.25);
        Rec q;
        q.put("s", from).put("g", to).put("solved", in.p->isSolved()).put("path", in.p->getSolutionPath())
            .put("interp", in.p->getInterpolatedSolutionPath()).put("nv", long(in.p->getNumVertex())).put("ne", long(in.p->getNumEdges()))
            .put("v", long(in.p->getVertices().size())).put("e", pairs(in.p->getEdges()));
        V2 v = in.p->getVertices(), e, known, joined;
        for (const auto& x : in.p->getEdges())
            if (size_t(x.first) < v.size() && size_t(x.second) < v.size()) e.push_back(in.p->both(v[x.first], v[x.second]));
        in.p->explored(known, joined);
        q.put("known", long(known.size())).put("joined", long(joined.size()))
            .put("some", closest(v, known)).put("there", closest(known, v)).put("some2", closest(e, joined)).put("there2", closest(joined, e)).put("time", in.p->getPlanningTime()).put("exact", in.p->exact()).put("limit", 0.25);
        qs.push_back(q.json());
    }
    rec.put("q", qs).put("alg", planner);
    out(rec);
}

// ---------------------------------------------------------------- E03
template <class I>
static void figures(Out& out, Rng& r, int t, const JV& c) {
    I in(r, t, t % 3 == 0);
    in.make();
    const int planner = t % (in.s.req.isRobotRigid ? 7 : 5), sampler = (t / 7) % 5;
    in.p->setup(planner, sampler);
    if (t % 4 == 3) in.p->setup(planner, (sampler + 2) % 5), in.p->setup(planner, sampler);
    const auto count = in.p->counting();
    Rec rec((std::string("figures") + I::tag()).c_str());
    std::vector<V1> ends;
    V1 bad;
    long good = 0;
    const long tried = 3000;
    for (long k = 0; k < tried; ++k) {
        const V1 x = in.conf(r);
        if (!in.p->valid(x)) bad = x;
        else if (++good, ends.size() < 4) ends.push_back(x);
    }
    if (ends.size() < 4) return;
    std::vector<J> qs;
    for (size_t k = 0; k < c["h"].size(); ++k) {
        const std::string h = c["h"][k].s;
        auto end = [&](char e) { return e == 'x' && !bad.empty() ? bad : ends[(e == 'x' ? 'd' : e) - 'a']; };
        count->all = count->good = 0;
        const auto then = std::chrono::steady_clock::now();
        in.p->plan(end(h[0]), end(h[1]), 0.15);
        const std::chrono::duration<double> spent = std::chrono::steady_clock::now() - then;
        Rec q;
        q.put("time", in.p->getPlanningTime()).put("took", in.p->took()).put("spent", spent.count());
        q.put("solved", in.p->isSolved()).put("length", long(in.p->getPathLength())).put("path", long(in.p->getSolutionPath().size()))
            .put("checks", long(in.p->getNumCollisionChecks())).put("valid", long(in.p->getNumValidStates()))
            .put("all", long(count->all)).put("good", long(count->good)).put("percent", in.p->getValidStatePercent());
        qs.push_back(q.json());
    }
    rec.put("q", qs).put("alg", planner).put("smp", sampler).put("algname", in.p->algorithm()).put("smpname", in.p->sampler())
        .put("share", double(good) / tried);
    out(rec);
}

int main(int argc, char** argv) {
    if (argc < 3) return 3;
    ompl::msg::setLogLevel(ompl::msg::LOG_NONE);
    static std::ofstream& null = *new std::ofstream("/dev/null");
    std::cout.rdbuf(null.rdbuf());
    const std::string m = argv[1];
    Out out(argv[2]);
    const long sh = envInt("SHARDS", 1), me = envInt("SHARD", 0);
    ompl::RNG::setSeed(uint_fast32_t(envInt("VERIF_SEED", 1) * 100 + me + 1));
    if (m == "states") {
        const int n = thorough() ? 400 : 80;
        for (int t = 0; t < n; ++t) {
            Rng r(7100 + t);
            if (t % sh != me) continue;
            if (t % 5 < 2) states<In2>(out, r, t / 5, 24);
            else if (t % 5 < 4) states<In3<oi::OMPL3D>>(out, r, t / 5, 12);
            else states<In3<oi::OMPL3DArticulated>>(out, r, t / 5, 8);
        }
    } else if (m == "queries") {
        const auto cases = readCases(argv[3]);
        for (size_t t = 0; t < 3 * cases.size(); ++t) {
            Rng r(7500 + t);
            if (long(t) % sh != me) continue;
            const JV& c = cases[t % cases.size()];
            if (t % 5 < 3) queries<In2>(out, r, int(t / 5) + int(t % 5) * 3, c);
            else if (t % 5 < 4) queries<In3<oi::OMPL3D>>(out, r, int(t / 5), c);
            else queries<In3<oi::OMPL3DArticulated>>(out, r, int(t / 5), c);
        }
    } else if (m == "figures") {
        const auto cases = readCases(argv[3]);
        for (size_t t = 0; t < std::max<size_t>(2 * cases.size(), 210); ++t) {
            Rng r(7900 + t);
            if (long(t) % sh != me) continue;
            const JV& c = cases[t % cases.size()];
            if (t % 5 < 2) figures<In2>(out, r, int(t / 5) * 2 + int(t % 5), c);
            else if (t % 5 < 4) figures<In3<oi::OMPL3D>>(out, r, int(t / 5) * 2 + int(t % 5) - 2, c);
            else figures<In3<oi::OMPL3DArticulated>>(out, r, int(t / 5), c);
        }
    } else
        return 3;
    return 0;
}
