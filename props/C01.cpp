#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C01",
    "random clamped curves (degree 1..8, 0..8 extra control points, uniform or irregular knots with interior multiplicity up to the degree, weights 0.25..4), "
    "up to 24 parameters per curve incl. ends, knots and spans' interiors; non-trivial: at least one interior knot and one evaluation strictly inside a span",
    1500000, 20000000, 10};

void property(pbt::Src &s, pbt::Ctx &c) {
    auto d = gen::curve(s);
    c.show([&](auto &o) { o << d; });
    bool autok = !d.custom && s.flag();
    std::vector<vec4> cp = glue::pts(d.P);
    NURBSCurve k;
    if (autok) {
        c.label("generated knots");
        switch (s.below(4)) {
            case 0: k = NURBSCurve(cp, d.p, false); break;
            case 1: k = NURBSCurve(cp, d.p); break;
            case 2: {
                k = NURBSCurve(cp.size(), d.p, false);
                k.control_points = cp;
                break;
            }
            default: {
                if (d.rational) { k = NURBSCurve(cp, d.p, false); break; }
                std::vector<vec3> c3;
                for (auto &q: d.P) c3.push_back(vec3(q[0], q[1], q[2]));
                k = s.flag() ? NURBSCurve(c3, d.p, false) : NURBSCurve(c3, d.p);
            }
        }
        PBT_CHECK(k.get_knots().size() == d.U.size());
        for (size_t i = 0; i < d.U.size(); ++i) PBT_CHECK(k.get_knots()[i] == d.U[i], "generated knot ", i);
        if ((d.p == 3 && d.P.size() >= 4) || (d.p == 1 && d.P.size() < 4)) {
            NURBSCurve k2(cp), k3(cp, false);
            glue::same_curve(k2, NURBSCurve(cp, d.p, false), "default degree");
            glue::same_curve(k3, NURBSCurve(cp, d.p, false), "default degree");
            c.label("default degree");
        }
    } else if (s.chance(1, 4)) {   // another curve, turned into this one part by part
        int p0 = s.range(1, 4);
        size_t n0 = p0 + 1 + s.below(5);
        std::vector<vec4> other(n0, vec4(1, 2, 3, 1));
        k = NURBSCurve(other, p0, false);
        k.set_degree(d.p);
        k.set_control_points(cp);
        if (n0 != cp.size()) {
            auto gen = NURBSCurve(cp, d.p, false).get_knots();
            PBT_CHECK(k.get_knots() == gen, "knots generated for another number of points");
        }
        auto u = d.U;
        k.set_knots(u);
        c.label("changed part by part");
    } else {
        k = glue::curve(d);
    }
    PBT_CHECK(k.get_knots() == d.U && k.get_control_points().size() == cp.size(), "knots or number of points");
    {
        std::vector<vec3> q3, q4 = k.get_control_points3d();
        if (s.flag()) q3.resize(s.below(20));
        auto &ref = k.get_control_points3d(q3);
        PBT_CHECK(&ref == &q3 && q3.size() == cp.size() && q4.size() == cp.size(), "number of space points");
        for (size_t i = 0; i < cp.size(); ++i)
            for (int x = 0; x < 3; ++x) {
                PBT_CHECK(k.get_control_points()[i][x] == cp[i][x] && k.get_control_points()[i].w == cp[i].w, "control point ", i);
                PBT_CHECK(q3[i][x] == q4[i][x] && std::fabs(q3[i][x] - cp[i][x] / cp[i].w) <= 1e-15 * std::fabs(q3[i][x]), "space point ", i);
            }
    }
    PBT_CHECK(k.get_degree() == d.p);
    PBT_CHECK(k.interval()[0] == d.U.front() && k.interval()[1] == d.U.back(), "domain");
    auto r = d.ref();
    double tol = 1e-9 * d.scale() + 1e-12;
    int m = 1 + (int) s.below(24);
    // affine map for the metamorphic part
    double A[3][4];
    for (auto &row: A) for (double &x: row) x = s.zint(16) / 4.0;
    auto dm = d;
    for (auto &q: dm.P) {
        auto o = q;
        for (int i = 0; i < 3; ++i) q[i] = A[i][0] * o[0] + A[i][1] * o[1] + A[i][2] * o[2] + A[i][3] * o[3];
    }
    NURBSCurve km = glue::curve(dm);
    double lo[3], hi[3];
    for (int x = 0; x < 3; ++x) {
        lo[x] = 1e300, hi[x] = -1e300;
        for (auto &q: d.P) lo[x] = std::min(lo[x], q[x] / q[3]), hi[x] = std::max(hi[x], q[x] / q[3]);
    }
    for (int i = 0; i < m; ++i) {
        double u = gen::param(s, d.U);
        vec3 a, b = k(u), e;
        k.evaluate(u, a);
        vec3 &ee = k(u, e);
        PBT_CHECK(a == b && a == e && &ee == &e, "evaluation forms differ");
        auto want = r.eval(u);
        // at an interior knot of multiplicity = degree the curve is still continuous, so both sides agree
        PBT_CHECK(ref::dist(glue::to3(a), want) <= tol, "at ", u, " got ", a.x, ",", a.y, ",", a.z, " expected ",
                  (double) want[0], ",", (double) want[1], ",", (double) want[2]);
        vec3 t = km(u);
        vec3 w(A[0][0] * a.x + A[0][1] * a.y + A[0][2] * a.z + A[0][3], A[1][0] * a.x + A[1][1] * a.y + A[1][2] * a.z + A[1][3],
               A[2][0] * a.x + A[2][1] * a.y + A[2][2] * a.z + A[2][3]);
        PBT_CHECK(ref::dist(glue::to3(t), glue::to3(w)) <= 40 * tol, "affine map does not commute with evaluation at ", u);
        for (int x = 0; x < 3; ++x) {
            double v = x == 0 ? a.x : x == 1 ? a.y : a.z;
            PBT_CHECK(v >= lo[x] - tol && v <= hi[x] + tol, "outside the box of the control points at ", u);
        }
        if (u != d.U.front() && u != d.U.back() && d.U.size() > 2u * (d.p + 1)) c.nontrivial();
    }
    // the convex hull in a random direction
    double dx = s.zint(8), dy = s.zint(8), dz = s.zint(8);
    double mx = -1e300, nrm = std::fabs(dx) + std::fabs(dy) + std::fabs(dz);
    for (auto &q: d.P) mx = std::max(mx, (dx * q[0] + dy * q[1] + dz * q[2]) / q[3]);
    vec3 a = k(gen::param(s, d.U));
    PBT_CHECK(dx * a.x + dy * a.y + dz * a.z <= mx + nrm * tol, "outside the convex hull");
    // ends
    vec3 s0 = k(d.U.front()), s1 = k(d.U.back());
    auto &f = d.P.front();
    auto &l = d.P.back();
    PBT_CHECK(ref::dist(glue::to3(s0), {f[0] / f[3], f[1] / f[3], f[2] / f[3]}) <= tol, "start not interpolated");
    PBT_CHECK(ref::dist(glue::to3(s1), {l[0] / l[3], l[1] / l[3], l[2] / l[3]}) <= tol, "end not interpolated");
    if (d.rational) c.label("rational");
    if (d.multi) c.label("repeated interior knots");
    if (d.p > 3) c.label("degree>3");
}
