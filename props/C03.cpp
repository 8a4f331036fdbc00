#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C03",
    "random clamped curves (degree 1..8) and histories of 1..5 insertions at existing knots, new parameters or the same parameter again, each with a count that keeps the multiplicity within the degree; "
    "the curve is compared with the original in every span after every insertion. non-trivial: at least one insertion of count >= 1 strictly inside the domain",
    375000, 4000000, 10};

void property(pbt::Src &s, pbt::Ctx &c) {
    auto d = gen::curve(s);
    c.show([&](auto &o) { o << d; });
    auto r = d.ref();
    NURBSCurve k = glue::curve(d);
    double tol = 1e-9 * d.scale();
    int ops = 1 + (int) s.below(5);
    std::vector<double> expect = d.U;
    for (int i = 0; i < ops; ++i) {
        double t;
        if (s.chance(1, 3)) t = s.of(gen::distinct(expect));
        else t = gen::inside(s, s.flag() ? d.U : expect, 0.03);
        int mult = (int) std::count(expect.begin(), expect.end(), t);
        if (t == expect.front() || t == expect.back() || mult >= d.p) continue;
        int cnt = 1 + (int) s.below(d.p - mult);
        c.show([&](auto &o) { o << " insert " << t << " x" << cnt; });
        size_t n0 = k.get_control_points().size();
        k.insert_knot(mult && s.chance(1, 3) ? gen::beside(s, t) : t, cnt);   // rounding beside a knot means the knot
        expect.insert(std::upper_bound(expect.begin(), expect.end(), t), cnt, t);
        PBT_CHECK(k.get_control_points().size() == n0 + cnt, "control points: ", k.get_control_points().size(), " expected ", n0 + cnt);
        PBT_CHECK(k.get_knots() == expect, "knot vector after inserting ", t, " x", cnt);
        PBT_CHECK(k.get_degree() == d.p, "degree changed");
        PBT_CHECK(k.interval()[0] == d.U.front() && k.interval()[1] == d.U.back(), "domain changed");
        c.nontrivial();
        if (mult) c.label("insertion at an existing knot");
        if (cnt > 1) c.label("several at once");
        if (mult + cnt == d.p) c.label("full multiplicity");
        // same shape: reference evaluation of the new data against the original data, and evaluation by the library
        auto now = glue::as_ref(k);
        auto ds = gen::distinct(expect);
        for (size_t j = 0; j + 1 < ds.size(); ++j) {
            for (double f: {0.0, 0.29, 0.71, 1.0}) {
                double u = f == 1.0 ? ds[j + 1] : ds[j] + f * (ds[j + 1] - ds[j]);
                auto a = r.eval(u), b = now.eval(u);
                PBT_CHECK(ref::dist(a, b) <= tol, "shape changed at ", u, " by ", (double) ref::dist(a, b));
            }
            double u = ds[j] + 0.5 * (ds[j + 1] - ds[j]);
            auto a = r.eval(u);
            vec3 b = k(u);
            PBT_CHECK(ref::dist(a, glue::to3(b)) <= tol, "evaluation changed at ", u);
        }
        // weights stay consistent (the homogeneous curve itself is unchanged)
        double u = gen::param(s, d.U);
        auto a = r.eval4(u), b = now.eval4(u);
        for (int x = 0; x < 4; ++x) PBT_CHECK(fabsl(a[x] - b[x]) <= 4 * tol, "homogeneous coordinate ", x, " changed at ", u);
    }
    if (d.rational) c.label("rational");
    if (d.multi) c.label("repeated interior knots");
}
