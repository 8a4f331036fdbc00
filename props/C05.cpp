#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C05",
    "random clamped curves (degree 1..8, repeated knots, weights) decomposed into Bezier segments; every segment is compared with the original on its span. "
    "non-trivial: at least two segments",
    600000, 6000000, 10};

void property(pbt::Src &s, pbt::Ctx &c) {
    auto d = gen::curve(s);
    c.show([&](auto &o) { o << d; });
    auto r = d.ref();
    NURBSCurve k = glue::curve(d);
    const NURBSCurve before = k;
    std::vector<NURBSCurve> B;
    size_t pre = 0;
    if (s.chance(1, 4)) {  // appending to a non-empty list keeps what was there
        B.push_back(k);
        pre = 1;
    }
    k.decompose(B);
    glue::same_curve(k, before, "source");
    auto ds = gen::distinct(d.U);
    PBT_CHECK(B.size() == pre + ds.size() - 1, "got ", B.size() - pre, " segments for ", ds.size() - 1, " spans");
    if (pre) glue::same_curve(B[0], before, "element already in the list");
    double tol = 1e-9 * d.scale();
    for (size_t i = 0; i + 1 < ds.size(); ++i) {
        auto &b = B[pre + i];
        glue::valid_clamped(b, "segment");
        PBT_CHECK(b.get_degree() == d.p, "degree");
        PBT_CHECK(b.get_control_points().size() == d.p + 1u, "segment ", i, " has ", b.get_control_points().size(), " control points");
        PBT_CHECK(b.interval()[0] == ds[i] && b.interval()[1] == ds[i + 1], "segment ", i, " spans [", b.interval()[0], ",", b.interval()[1],
                  "] expected [", ds[i], ",", ds[i + 1], "]");
        for (double f: {0.0, 0.13, 0.37, 0.5, 0.71, 0.93, 1.0}) {
            double u = f == 1.0 ? ds[i + 1] : ds[i] + f * (ds[i + 1] - ds[i]);
            vec3 a = b(u);
            PBT_CHECK(ref::dist(glue::to3(a), r.eval(u)) <= tol, "segment ", i, " differs at ", u);
        }
    }
    if (ds.size() > 2) c.nontrivial();
    if (d.rational) c.label("rational");
    if (d.multi) c.label("repeated interior knots");
}
