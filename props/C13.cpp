#include "nurbs_glue.h"
#include "cmmcore/boundary_intersection.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C13",
    "surfaces of degrees 1..8 with different sizes, knots and weights in u and v; isocurves in both directions at random parameters, knots and ends, by the member and by the free function; the four boundary curves; parameters outside the domain. "
    "non-trivial: an isocurve at an interior parameter of a surface whose u and v data differ",
    160000, 2000000, 8};

void property(pbt::Src &s, pbt::Ctx &c) {
    gen::SurfOpt so;
    so.extra = 4;
    auto d = gen::surface(s, so);
    c.show([&](auto &o) { o << d; });
    auto r = d.ref();
    const NURBSSurface k = glue::surface(d);
    double tol = 3e-9 * d.scale() + 1e-12;
    auto along = [&](const NURBSCurve &cv, int fixed, double t, const char *what) {
        auto &kn = fixed == 0 ? d.V : d.U;
        PBT_CHECK(cv.get_degree() == (fixed == 0 ? d.q : d.p), what, ": degree");
        PBT_CHECK(cv.get_knots() == kn, what, ": knots");
        PBT_CHECK(cv.get_control_points().size() == (fixed == 0 ? d.P[0].size() : d.P.size()), what, ": control points");
        PBT_CHECK(cv.interval()[0] == kn.front() && cv.interval()[1] == kn.back(), what, ": domain");
        PBT_CHECK(!cv._periodic, what, ": flagged periodic");
        auto g = glue::as_ref(cv);
        for (int i = 0; i < 4; ++i) {
            double x = i == 0 ? kn.front() : i == 1 ? kn.back() : gen::param(s, kn);
            auto want = fixed == 0 ? r.eval(t, x) : r.eval(x, t);
            vec3 y;
            cv.evaluate(x, y);
            PBT_CHECK(ref::dist(glue::to3(y), want) <= tol, what, " at ", x, " is off the surface by ", (double) ref::dist(glue::to3(y), want));
            PBT_CHECK(ref::dist(g.eval(x), want) <= tol, what, ": control points are off at ", x);
            const AABB &b = cv.aabb();
            PBT_CHECK(y.x >= b.min.x - tol && y.x <= b.max.x + tol && y.y >= b.min.y - tol && y.y <= b.max.y + tol && y.z >= b.min.z - tol && y.z <= b.max.z + tol, what,
                      ": the curve leaves its own box");
        }
    };
    int m = 1 + (int) s.below(3);
    for (int i = 0; i < m; ++i) {
        int fixed = (int) s.below(2);
        auto &kn = fixed == 0 ? d.U : d.V;
        auto dirn = fixed == 0 ? SurfaceParameter::U : SurfaceParameter::V;
        double t = gen::param(s, kn);
        c.show([&](auto &o) { o << " iso " << (fixed ? "v=" : "u=") << t; });
        along(k.extract_isocurve(t, dirn), fixed, t, "member isocurve");
        along(extract_isocurve(k, t, dirn), fixed, t, "free isocurve");
        if (t != kn.front() && t != kn.back() && (d.P.size() != d.P[0].size() || d.U != d.V)) c.nontrivial();
        c.label(fixed ? "fixed v" : "fixed u");
        // outside
        double o = s.flag() ? kn.back() + 0.01 + s.unit() : kn.front() - 0.01 - s.unit();
        int thrown = 0;
        try { (void) k.extract_isocurve(o, dirn); } catch (const std::exception &) { thrown |= 1; }
        try { (void) extract_isocurve(k, o, dirn); } catch (const std::exception &) { thrown |= 2; }
        PBT_CHECK(thrown == 3, "a parameter outside the domain is accepted: ", o);
    }
    std::array<NURBSCurve, 4> b;
    if (s.flag()) k.extract_surface_boundaries(b);
    else extract_surface_boundaries(k, b);
    along(b[0], 0, d.U.front(), "boundary 0 (u min)");
    along(b[1], 0, d.U.back(), "boundary 1 (u max)");
    along(b[2], 1, d.V.front(), "boundary 2 (v min)");
    along(b[3], 1, d.V.back(), "boundary 3 (v max)");
    if (d.rational) c.label("rational");
}
