// Connections made by the kinematics-of-containment planner with given polyhedra of allowed motions.
#include "scene2.hpp"
#include "poly.hpp"
template <class Tag, typename Tag::type M>
struct Open { friend typename Tag::type opened(Tag) { return M; } };
struct Poly { typedef PolyCSpace HRM2DKC::*type; friend type opened(Poly); };
template struct Open<Poly, &HRM2DKC::polyhedronVertex_>;

static void connect(Out& out) {
    Rng r(8700);
    for (int t = 0; t < (thorough() ? 120 : 30); ++t) {
        Scene2 s = scene2(r, 0, 3);
        s.req.parameters.numSlice = r.i(2, 6);
        s.req.parameters.numPoint = r.p(0.3) ? r.i(2, 4) : r.i(5, 40);
        const double f = t % 3 == 0 ? 1000 : r.p(0.5) ? r.u(0.05, 0.6) : r.u(0.5, 2);
        // every third time only motions that mostly turn: from one heading to the same position at another
        const auto all = t % 3 == 1 ? octa({r.u(0.1, 0.5), r.u(0.1, 0.5), r.u(7, 9)}) : octa({20 * f, 20 * f, 3 * f});
        Watch<HRM2DKC> p(*s.robot, s.arena, s.obs, s.req);
        p.*opened(Poly()) = t % 7 == 6 ? PolyCSpace() : poly(all);
        p.plan(0.0);
        Rec rec("joins");
        graph(rec, p.R());
        rec.put("n", long(p.par().numSlice)).put("blocks", blockRecs(p.blocks)).put("poly", t % 7 == 6 ? std::vector<Simplex>{} : all)
            .put("multi", p.multi).put("all", t % 7 != 6 && f == 1000).put("kept", p.blocks.empty() ? 0L : p.blocks.back().to);
        out(rec);
    }
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    static std::ofstream& null = *new std::ofstream("/dev/null");
    std::cout.rdbuf(null.rdbuf());
    const std::string m = argv[1];
    Out out(argv[2]);
    if (m == "connect") connect(out);
    else return 3;
    return 0;
}
