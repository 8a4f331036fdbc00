#include "scene.h"
#include "cmmcore/ssx.h"
using namespace cmmcore;
using scene::P3;
const pbt::Spec SPEC = {"C19",
    "two well-shaped patches (degrees 1..3, rational or not, one or several cells, arbitrary position and knots), one of which is moved so that they cross at chosen interior parameters at 25 degrees or more, or are apart by more than three tolerances; tolerances 1e-2..1e-3 of the cell size, now and then as large as the patches (completeness then claimed for patches no larger than the tolerance only). "
    "Both ends of every reported branch and every reported point are checked against the reference. "
    "non-trivial: at least one reported branch or point, or a separated pair whose boxes overlap",
    20000, 120000, 8};

void property(pbt::Src &s, pbt::Ctx &c) {
    double h = std::vector<double>{1, 0.1, 10, 3}[s.below(4)];
    scene::PatchOpt po;
    po.extra = 1;
    po.bend = std::vector<double>{0.3, 0.6, 1}[s.below(3)];
    auto d1 = scene::patch(s, po, h), d2 = scene::patch(s, po, h);
    if (s.flag()) scene::shift(d1, {s.coord(10) * h, s.coord(10) * h, s.coord(10) * h});
    double tol = h * std::vector<double>{1e-3, 1e-2, 3e-3}[s.below(3)];
    bool coarse = s.chance(1, 10);   // a tolerance as large as the patches or parts of them
    if (coarse) tol = h * std::vector<double>{4, 1, 16, 0.25, 2}[s.below(5)];
    bool apart = s.chance(1, 4);
    auto pk = [&](const std::vector<double> &k) {
        switch (s.below(3)) {
            case 0: return 0.5 * (k.front() + k.back());
            case 1: return k.front() + (k.back() - k.front()) * (2 + (double) s.below(13)) / 16;
            default: return gen::inside(s, k, 0.1);
        }
    };
    double u = pk(d1.U), v = pk(d1.V), u2 = pk(d2.U), v2 = pk(d2.V), gap = 0;
    if (apart) {
        auto n = scene::direction(s);
        gap = 3.5 * tol + (s.flag() ? 0 : s.unit() * h);
        scene::shift(d2, ref::mul(n, scene::extent(scene::flat(d1), n).second - scene::extent(scene::flat(d2), n).first + gap));
    } else scene::shift(d2, ref::sub(d1.ref().eval(u, v), d2.ref().eval(u2, v2)));
    auto r1 = d1.ref(), r2 = d2.ref();
    c.show([&](auto &o) { o << "first " << d1 << " second " << d2 << " tol " << tol; if (apart) o << " apart by " << gap; else o << " crossing at " << u << "," << v << " / " << u2 << "," << v2; });
    double sn = 0;
    if (!apart) {
        auto n1 = scene::normal(r1, u, v), n2 = scene::normal(r2, u2, v2);
        sn = (double) ref::norm(ref::cross(n1, n2));
        if (sn < 0.42) { c.label("grazing"); return; }
    }
    NURBSSurface S1 = glue::surface(d1), S2 = glue::surface(d2);
    Intersection R;
    findStartIntersectionPoints(S1, S2, tol, R);
    double slack = 1e-9 * (d1.scale() + d2.scale());
    auto check = [&](const char *what, std::array<double, 2> p, std::array<double, 2> q, const vec3 &x, double eps, double own) {
        PBT_CHECK(p[0] >= d1.U.front() && p[0] <= d1.U.back() && p[1] >= d1.V.front() && p[1] <= d1.V.back(), what, ": parameters (", p[0], ",", p[1], ") outside the first domain");
        PBT_CHECK(q[0] >= d2.U.front() && q[0] <= d2.U.back() && q[1] >= d2.V.front() && q[1] <= d2.V.back(), what, ": parameters (", q[0], ",", q[1], ") outside the second domain");
        auto a = r1.eval(p[0], p[1]), b = r2.eval(q[0], q[1]);
        double e = (double) ref::dist(a, b), e1 = (double) ref::dist(a, glue::to3(x)), e2 = (double) ref::dist(b, glue::to3(x));
        PBT_CHECK(e <= eps + slack && std::min(e1, e2) <= own + slack, what, " at (", p[0], ",", p[1], ") and (", q[0], ",", q[1], "): the surfaces are ", e, " apart, the point is ", e1, " and ", e2, " off them, tolerance ", tol);
    };
    for (auto &b: R.patches) {
        check("the start of a branch", b.start.surface1_params, b.start.surface2_params, b.start.point, tol, 0);
        check("the end of a branch", b.end.surface1_params, b.end.surface2_params, b.end.point, tol, 0);
    }
    // a point stands for two pieces whose boxes meet and are no larger than the tolerance
    for (auto &p: R.points) check("a point", {p.uv1.x, p.uv1.y}, {p.uv2.x, p.uv2.y}, p.xyz, 4 * tol, 4 * tol);
    if (apart) {
        PBT_CHECK(R.patches.empty() && R.points.empty(), "surfaces ", gap, " apart have ", R.patches.size(), " branches and ", R.points.size(), " points in common, tolerance ", tol);
        c.nontrivial();
        c.label("apart");
        return;
    }
    // where two pieces of a patch meet, either may be taken to be touched only
    auto seam = [](const std::vector<double> &k, double t) { return std::count(k.begin(), k.end(), t) > 0; };
    if (seam(d1.U, u) || seam(d1.V, v) || seam(d2.U, u2) || seam(d2.V, v2)) { c.label("at a seam"); return; }
    bool any = !R.patches.empty() || !R.points.empty();
    if (any) c.nontrivial();
    if (coarse) {   // patches of the size of the tolerance are reported if both are no larger, else they may be taken for touching
        auto small = [&](const gen::SurfData &d) {
            for (int k = 0; k < 3; ++k) {
                P3 e{};
                e[k] = 1;
                auto x = scene::extent(scene::flat(d), e);
                if (x.second - x.first > tol * (1 - 1e-9)) return false;
            }
            return true;
        };
        c.label(any ? "coarse found" : "coarse missed");
        PBT_CHECK(any || !small(d1) || !small(d2), "two patches no larger than the tolerance that cross are not reported");
        return;
    }
    c.label(any ? "found" : "MISSED");
    PBT_CHECK(any, "the crossing is not found: no branches and no points");
}
