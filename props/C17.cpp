#include "scene.h"
#include "cmmcore/csx.h"
using namespace cmmcore;
using scene::P3;
const pbt::Spec SPEC = {"C17",
    "a well-shaped patch (degrees 1..3, rational or not, arbitrary position and knots) and a curve (a straight line, or a curve of degree 1..3) moved so that they cross at chosen parameters, down to 1e-9 of the domain from its ends, at 25 degrees or more, or kept apart by a gap of more than three tolerances; tolerances 1e-2..1e-4 of the cell size. "
    "Every reported point and its parameters are checked against the reference. non-trivial: at least one reported intersection, or a separated pair whose boxes overlap",
    40000, 400000, 8};

void property(pbt::Src &s, pbt::Ctx &c) {
    double h = std::vector<double>{1, 0.1, 10, 3}[s.below(4)];
    scene::PatchOpt po;
    auto d = scene::patch(s, po, h);
    if (s.flag()) scene::shift(d, {s.coord(10) * h, s.coord(10) * h, s.coord(10) * h});
    auto rs = d.ref();
    bool edge = s.chance(1, 4);   // next to an edge or an end; exactly there rounding decides
    auto pk = [&](const std::vector<double> &k) {
        if (edge && s.flag()) {
            double w = (k.back() - k.front()) * std::ldexp(1.0, -s.range(5, 30));
            return s.flag() ? k.front() + w : k.back() - w;
        }
        switch (s.below(3)) {
            case 0: return 0.5 * (k.front() + k.back());
            case 1: return k.front() + (k.back() - k.front()) * (1 + (double) s.below(15)) / 16;
            default: return gen::inside(s, k, 0.05);
        }
    };
    double u = pk(d.U), v = pk(d.V);
    auto X = rs.eval(u, v);
    auto N = scene::normal(rs, u, v);
    if (ref::norm(N) == 0) return;
    double tol = h * std::vector<double>{1e-3, 1e-2, 1e-4}[s.below(3)];
    gen::CurveData a;
    bool line = s.chance(1, 2), apart = s.chance(1, 4);
    double t = 0;
    if (line) {
        a.p = 1;
        auto D = scene::direction(s);
        if (std::fabs((double) ref::dot(D, N)) < 0.5) D = N;
        double l1 = h * s.real(0.1, 4), l2 = h * s.real(0.1, 4);
        if (edge && s.chance(1, 4)) (s.flag() ? l1 : l2) = h * std::ldexp(1.0, -s.range(5, 30));
        for (auto q: {ref::sub(X, ref::mul(D, l1)), ref::add(X, ref::mul(D, l2))}) a.P.push_back({(double) q[0], (double) q[1], (double) q[2], 1});
        double b = s.flag() ? s.zint(8) : 0, e = b + (s.flag() ? 1 : s.real(0.2, 5));
        a.U = {b, b, e, e};
        t = b + (e - b) * l1 / (l1 + l2);
    } else {
        gen::CurveOpt o; o.wide = false;
        o.pmin = 1;
        o.pmax = 3;
        o.extra = 3;
        o.max_mult = 2;
        o.mag = 1;
        a = gen::curve(s, o);
        for (auto &q: a.P) for (int k = 0; k < 3; ++k) q[k] *= 2 * h;
        t = pk(a.U);
        scene::shift(a, ref::sub(X, a.ref().eval(t)));
    }
    auto T = a.ref().ders(t, 1)[1];
    double sn = std::fabs((double) (ref::dot(T, N) / std::max((ref::ld) 1e-30, ref::norm(T))));
    // the length of the part of the curve that runs along the surface (on a tessellation of both)
    if (!apart) {
        if (scene::stationary(a, 0.02 * h)) { c.label("stationary"); return; }
        if (scene::along(a, d, 0.03 * h) > 0.4 * h) { c.label("runs along the surface"); return; }
    }
    // a curve that lies in the surface meets it in a set that csx can only sample: what it costs is not judged
    if (sn < 0.1 || (double) ref::norm(T) * (a.U.back() - a.U.front()) < 0.1 * h) { c.label("lies in the surface"); return; }
    double gap = 0;
    if (apart) {
        auto n = scene::direction(s);
        gap = 3.5 * tol + (s.flag() ? 0 : s.unit() * h);
        scene::shift(a, ref::mul(n, scene::extent(scene::flat(d), n).second - scene::extent(a.P, n).first + gap));
    }
    auto ra = a.ref();
    c.show([&](auto &o) { o << "A " << a << " S " << d << " tol " << tol; if (apart) o << " apart by " << gap; else o << " crossing at t " << t << " u " << u << " v " << v; });
    NURBSCurve A = glue::curve(a);
    NURBSSurface S = glue::surface(d);
    NURBSCurve A0 = A;
    CSXIntersections R;
    if (tol == 1e-3 && s.flag()) {   // the tolerance not given
        if (s.flag()) R = csx(A, S);
        else csx(A, S, R);
    } else if (s.flag()) R = csx(A, S, tol);
    else csx(A, S, R, tol);
    glue::same_curve(A, A0, "the curve operand");
    for (auto &[type, pt, prm]: R) {
        PBT_CHECK(prm[0] >= a.U.front() && prm[0] <= a.U.back(), "curve parameter ", prm[0], " outside the domain");
        PBT_CHECK(prm[1] >= d.U.front() && prm[1] <= d.U.back() && prm[2] >= d.V.front() && prm[2] <= d.V.back(), "surface parameters (", prm[1], ",", prm[2], ") outside the domain");
        auto x = ra.eval(prm[0]), y = rs.eval(prm[1], prm[2]);
        double e1 = (double) ref::dist(x, y), e2 = (double) ref::dist(x, glue::to3(pt));
        double slack = 1e-9 * (a.scale() + d.scale());
        PBT_CHECK(e1 <= tol + slack && e2 <= slack, "reported t ", prm[0], " u ", prm[1], " v ", prm[2], ": curve and surface ", e1, " apart, point ", e2, " off the curve, tolerance ", tol);
    }
    if (apart) {
        PBT_CHECK(R.empty(), "a curve and a surface ", gap, " apart intersect ", R.size(), " times, tolerance ", tol);
        c.nontrivial();
        c.label("apart");
        return;
    }
    if (!R.empty()) c.nontrivial();
    bool at_knot = !line && std::count(a.U.begin(), a.U.end(), t);
    if (at_knot || sn < 0.42) { c.label("grazing"); return; }
    double best = 1e300;
    for (auto &[type, pt, prm]: R) best = std::min(best, (double) ref::dist(glue::to3(pt), X));
    bool found = best <= 10 * tol;
    c.label(pbt::str(edge ? "edge " : "", line ? "line " : "curve ", found ? "found" : "MISSED"));
    if (!found && best <= 200 * tol) { c.label("another crossing close by"); return; }
    PBT_CHECK(found, "the crossing at t ", t, " u ", u, " v ", v, " is not among the ", R.size(), " reported (nearest ", best, ")");
}
