#include "scene.h"
#include "cmmcore/boundary_intersection.h"
using namespace cmmcore;
using scene::P3;
const pbt::Spec SPEC = {"C18",
    "two well-shaped patches (degrees 1..3, rational or not, several cells, arbitrary position and knots), one of which is moved so that a chosen point of one of its edges lies on the other, crossing it at 25 degrees or more, or so that the two are apart by more than three tolerances; either order of the two; tolerances 1e-2..1e-5 of the cell size. "
    "Every reported point, its parameters and its edge are checked against the reference, no two are the same. Pairs in which an edge runs along the other patch are left out. The pairing of the reported points is checked to use every point once, to leave at most one alone, and to join each with the nearest of those left. "
    "non-trivial: at least one reported point, or a separated pair whose boxes overlap",
    15000, 150000, 8};

static gen::CurveData edge(const gen::SurfData &d, int i) {
    gen::CurveData e;
    e.rational = d.rational;
    if (i < 2) {
        e.p = d.q;
        e.U = d.V;
        e.P = i == 0 ? d.P.front() : d.P.back();
    } else {
        e.p = d.p;
        e.U = d.U;
        for (auto &r: d.P) e.P.push_back(i == 2 ? r.front() : r.back());
    }
    return e;
}

void property(pbt::Src &s, pbt::Ctx &c) {
    double h = std::vector<double>{1, 0.1, 10, 3}[s.below(4)];
    scene::PatchOpt po;
    po.extra = 1;
    auto d1 = scene::patch(s, po, h), d2 = scene::patch(s, po, h);
    if (s.flag()) scene::shift(d1, {s.coord(10) * h, s.coord(10) * h, s.coord(10) * h});
    double tol = h * std::vector<double>{1e-3, 1e-2, 1e-4, 1e-5}[s.pick({4, 3, 3, 1})];
    bool apart = s.chance(1, 4);
    bool rim = s.chance(1, 4);   // next to an edge or an end; exactly there rounding decides
    auto pk = [&](const std::vector<double> &k) {
        if (rim && s.flag()) {
            double w = (k.back() - k.front()) * std::ldexp(1.0, -s.range(5, 30));
            return s.flag() ? k.front() + w : k.back() - w;
        }
        switch (s.below(3)) {
            case 0: return 0.5 * (k.front() + k.back());
            case 1: return k.front() + (k.back() - k.front()) * (1 + (double) s.below(15)) / 16;
            default: return gen::inside(s, k, 0.05);
        }
    };
    int b = (int) s.below(4);
    double u = pk(d1.U), v = pk(d1.V), gap = 0, t = 0;
    if (apart) {
        auto n = scene::direction(s);
        gap = 3.5 * tol + (s.flag() ? 0 : s.unit() * h);
        scene::shift(d2, ref::mul(n, scene::extent(scene::flat(d1), n).second - scene::extent(scene::flat(d2), n).first + gap));
    } else {
        auto e = edge(d2, b);
        t = pk(e.U);
        scene::shift(d2, ref::sub(d1.ref().eval(u, v), e.ref().eval(t)));
    }
    gen::SurfData D[2] = {d1, d2};
    bool swap = s.flag();
    if (swap) std::swap(D[0], D[1]);
    int owner = swap ? 0 : 1;    // whose edge crosses the other
    ref::Surface R[2] = {D[0].ref(), D[1].ref()};
    c.show([&](auto &o) { o << "first " << D[0] << " second " << D[1] << " tol " << tol; if (apart) o << " apart by " << gap; else o << " edge " << b << " of the " << (owner ? "second" : "first") << " at " << t << " crosses the other at " << u << "," << v; });
    gen::CurveData E[2][4];
    for (int k = 0; k < 2; ++k) for (int i = 0; i < 4; ++i) {
        E[k][i] = edge(D[k], i);
        if (scene::stationary(E[k][i], 0.02 * h)) { c.label("stationary edge"); return; }
        if (!apart && scene::along(E[k][i], D[1 - k], 0.03 * h) > 0.4 * h) { c.label("an edge runs along the other patch"); return; }
    }
    NURBSSurface S1 = glue::surface(D[0]), S2 = glue::surface(D[1]);
    std::vector<IntersectionPoint> ips;
    find_boundary_intersections(S1, S2, ips, tol);
    for (auto &ip: ips) {
        int k = ip.is_from_first_surface ? 0 : 1, bi = ip.boundary_index;
        PBT_CHECK(bi >= 0 && bi < 4, "boundary index ", bi);
        auto &e = E[k][bi];
        PBT_CHECK(ip.curve_param >= e.U.front() && ip.curve_param <= e.U.back(), "parameter ", ip.curve_param, " outside edge ", bi, " of surface ", k + 1);
        std::array<double, 2> own = bi == 0 ? std::array<double, 2>{D[k].U.front(), ip.curve_param} : bi == 1 ? std::array<double, 2>{D[k].U.back(), ip.curve_param} :
            bi == 2 ? std::array<double, 2>{ip.curve_param, D[k].V.front()} : std::array<double, 2>{ip.curve_param, D[k].V.back()};
        auto &p1 = ip.surface1_params, &p2 = ip.surface2_params;
        PBT_CHECK((k == 0 ? p1 : p2) == own, "parameters on the surface whose edge it is: (", (k == 0 ? p1 : p2)[0], ",", (k == 0 ? p1 : p2)[1], ") expected (", own[0], ",", own[1], ")");
        PBT_CHECK((k == 0 ? p2 : p1) == ip.surface_params, "parameters on the other surface");
        auto st = ip.get_start_params();
        PBT_CHECK(st.first == p1 && st.second == p2, "start parameters");
        auto &q = ip.surface_params;
        auto &O = D[1 - k];
        PBT_CHECK(q[0] >= O.U.front() && q[0] <= O.U.back() && q[1] >= O.V.front() && q[1] <= O.V.back(), "parameters (", q[0], ",", q[1], ") outside the domain of the other surface");
        auto x = R[k].eval(own[0], own[1]), y = R[1 - k].eval(q[0], q[1]);
        double slack = 1e-9 * (D[0].scale() + D[1].scale());
        double e1 = (double) ref::dist(x, y), e2 = (double) ref::dist(x, glue::to3(ip.point));
        PBT_CHECK(e1 <= tol + slack && e2 <= slack, "the point on edge ", bi, " of surface ", k + 1, " at ", ip.curve_param, " is ", e1, " off the other surface, the reported point ", e2, " off the edge");
    }
    for (size_t i = 0; i < ips.size(); ++i) for (size_t j = 0; j < i; ++j)
        PBT_CHECK(ref::dist(glue::to3(ips[i].point), glue::to3(ips[j].point)) >= tol * (1 - 1e-9), "points ", j, " and ", i, " of ", ips.size(), " are the same within the tolerance");
    // the pairing
    std::vector<std::vector<IntersectionPoint>> seq;
    sort_boundary_intersections(ips, seq);
    size_t total = 0;
    std::vector<int> used(ips.size(), 0);
    for (auto &q: seq) {
        PBT_CHECK(!q.empty() && q.size() <= 2, "a sequence of ", q.size(), " points");
        total += q.size();
        for (auto &x: q) {
            bool hit = false;
            for (size_t i = 0; i < ips.size() && !hit; ++i) if (!used[i] && ips[i].boundary_index == x.boundary_index && ips[i].is_from_first_surface == x.is_from_first_surface &&
                ips[i].curve_param == x.curve_param && ips[i].surface_params == x.surface_params) hit = true, used[i] = 1;
            PBT_CHECK(hit, "a sequence contains a point that was not given");
        }
    }
    PBT_CHECK(total == ips.size(), "the sequences contain ", total, " of ", ips.size(), " points");
    PBT_CHECK(seq.size() == (ips.size() + 1) / 2, ips.size(), " points are in ", seq.size(), " sequences");
    for (size_t i = 0; i < seq.size(); ++i) {
        if (seq[i].size() == 1) {
            PBT_CHECK(i + 1 == seq.size(), "sequence ", i, " of ", seq.size(), " is of a single point");
            continue;
        }
        double a = (seq[i][0].point - seq[i][1].point).length();
        for (size_t j = i + 1; j < seq.size(); ++j) for (auto &x: seq[j]) {
            double b = (seq[i][0].point - x.point).length();
            PBT_CHECK(a <= b * (1 + 1e-12), "a point is paired with one ", a, " away, another that was left is ", b, " away");
        }
    }
    if (apart) {
        PBT_CHECK(ips.empty(), "surfaces ", gap, " apart have ", ips.size(), " boundary intersections, tolerance ", tol);
        c.nontrivial();
        c.label("apart");
        return;
    }
    if (!ips.empty()) c.nontrivial();
    auto N = scene::normal(R[1 - owner], u, v);
    auto ce = E[owner][b];
    auto X = R[1 - owner].eval(u, v), T = ce.ref().ders(t, 1)[1];
    double sn = std::fabs((double) (ref::dot(T, N) / std::max((ref::ld) 1e-30, ref::norm(T))));
    bool at_knot = t == ce.U.front() || t == ce.U.back() || std::count(ce.U.begin(), ce.U.end(), t);
    if (at_knot || sn < 0.42 || ref::norm(N) == 0) { c.label("grazing"); return; }
    double best = 1e300;
    for (auto &ip: ips) best = std::min(best, (double) ref::dist(glue::to3(ip.point), X));
    bool found = best <= 10 * tol;
    c.label(pbt::str(rim ? "rim " : "", found ? "found" : "MISSED"));
    if (!found && best <= 200 * tol) { c.label("another crossing close by"); return; }
    PBT_CHECK(found, "the crossing on edge ", b, " of surface ", owner + 1, " at ", t, " is not among the ", ips.size(), " reported (nearest ", best, ")");
}
