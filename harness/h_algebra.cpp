// A01 - A04: interval algebra, free segments on sweep lines, lines and segments
// against boundaries.
#include "common.hpp"
#include "geo.hpp"
#include "hrm/datastructure/FreeSpace2D.h"
#include "hrm/datastructure/FreeSpace3D.h"
#include "hrm/datastructure/Interval.h"
#include "hrm/geometry/LineIntersection.h"
using namespace hrm;

static std::vector<Interval> ivs(const std::vector<std::vector<double>>& v) {
    std::vector<Interval> o;
    for (const auto& x : v) o.emplace_back(x[0], x[1]);
    return o;
}
static std::vector<std::vector<double>> raw(const std::vector<Interval>& v) {
    std::vector<std::vector<double>> o;
    for (const auto& x : v) o.push_back({x.s(), x.e()});
    return o;
}

static void intervals(Out& out, const char* cases) {
    auto list = [&](const std::vector<std::vector<double>>& ins) {
        out(Rec("list").put("ins", ins).put("union", raw(Interval::unions(ivs(ins))))
                .put("inter", raw(Interval::intersects(ivs(ins)))));
    };
    auto comp = [&](const std::vector<std::vector<double>>& o, const std::vector<std::vector<double>>& in) {
        out(Rec("comp").put("outer", o).put("inner", in)
                .put("comp", raw(Interval::complements(ivs(o), ivs(in)))));
    };
    for (const auto& c : readCases(cases)) {
        if (c["k"].s == "list") list(c["ins"].mat());
        else comp(c["outer"].mat(), c["inner"].mat());
    }
    comp({}, {});
    comp({}, {{0, 1}});
    Rng r(11);
    const int n = thorough() ? 3000 : 500;
    for (int t = 0; t < n; ++t) {
        int m = r.i(1, 9);
        double scale = r.pick(std::vector<double>{1, 1e-6, 1e6, 37.5});
        std::vector<std::vector<double>> ins;
        for (int j = 0; j < m; ++j) {
            double a = r.u(-scale, scale), b = a + r.u(0, scale) * (r.p(0.3) ? 0.05 : 1);
            if (r.p(0.1)) b = a;
            if (j && r.p(0.2)) a = ins[r.i(0, j - 1)][1], b = std::max(a, b);   // touching
            if (j && r.p(0.1)) { a = ins[j - 1][0]; b = std::max(a, b); }        // same start
            if (j && r.p(0.05)) { a = ins[j - 1][0]; b = ins[j - 1][1]; }        // duplicate
            ins.push_back({a, b});
        }
        list(ins);
        // disjoint sorted inner intervals inside, overlapping and around an outer one
        std::vector<double> cuts;
        for (int j = 0; j < 2 * r.i(0, 6); ++j) cuts.push_back(r.u(-scale, scale));
        std::sort(cuts.begin(), cuts.end());
        std::vector<std::vector<double>> inner;
        for (size_t j = 0; j + 1 < cuts.size(); j += 2)
            if (inner.empty() || inner.back()[1] < cuts[j])
                inner.push_back({cuts[j], r.p(0.1) ? cuts[j] : cuts[j + 1]});
        double a = r.u(-scale, scale), b = a + r.u(0, scale);
        if (!inner.empty() && r.p(0.3)) a = r.p(0.5) ? inner[0][0] : inner[0][1], b = std::max(a, b);
        if (!inner.empty() && r.p(0.3)) b = std::max(a, r.p(0.5) ? inner.back()[0] : inner.back()[1]);
        comp({{a, b}}, inner);
    }
}

#include "h_lines.hpp"

int main(int argc, char** argv) {
    if (argc < 3) return 3;
    Out out(argv[2]);
    const std::string m = argv[1];
    if (m == "intervals") intervals(out, argv[3]);
    else if (m == "lines") lines(out, argv[3]);
    else if (m == "segments") segments(out, argv[3]);
    else if (m == "freeseg") freeseg(out, argv[3]);
    else return 3;
    return 0;
}
