#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C12",
    "surfaces of degrees 1..8 with different sizes, knots and weights; parameters inside knot cells, at the ends of the domain and on knots where the surface is smooth; partial derivatives and the normal against the reference, derivative surfaces (equal weights) against the reference everywhere. "
    "non-trivial: a regular parameter (partials not parallel) of a surface that is not bilinear",
    240000, 2400000, 8};

void property(pbt::Src &s, pbt::Ctx &c) {
    gen::SurfOpt so;
    so.extra = 3;
    int mode = (int) s.below(2);
    so.allow_rational = mode == 0;
    auto d = gen::surface(s, so);
    double W = 1;
    if (mode == 1 && s.chance(1, 3)) {  // equal weights other than one
        W = 0.25 * (1 + s.below(12));
        for (auto &r: d.P) for (auto &q: r) for (double &x: q) x *= W;
    }
    c.show([&](auto &o) { o << d; });
    auto r = d.ref();
    NURBSSurface k = glue::surface(d);
    double sc = d.scale();
    auto cell = [](const std::vector<double> &kn) {
        double m = kn.back() - kn.front();
        for (size_t a = 0; a + 1 < kn.size(); ++a) if (kn[a + 1] > kn[a]) m = std::min(m, kn[a + 1] - kn[a]);
        return m;
    };
    double mu = cell(d.U), mv = cell(d.V);
    int m = 1 + (int) s.below(6);
    for (int i = 0; i < m; ++i) {
        auto pick = [&](const std::vector<double> &kn, int deg) {
            switch (s.below(5)) {
                case 0: return kn.front();
                case 1: return kn.back();
                case 2: {
                    auto ks = gen::distinct(kn);
                    double t = ks[s.below(ks.size())];
                    if (t == kn.front() || t == kn.back() || std::count(kn.begin(), kn.end(), t) < deg) return t;
                    [[fallthrough]];
                }
                default: return gen::inside(s, kn, 0.05);
            }
        };
        double u = pick(d.U, d.p), v = pick(d.V, d.q);
        auto ru = r.row_curve_u(v), rv = r.row_curve_v(u);
        auto eu = ru.ders(u, 3), ev = rv.ders(v, 3);
        vec3 gu, gv, n;
        k.derivative_u(u, v, gu);
        k.derivative_v(u, v, gv);
        double tu = 1e-8 * (sc + sc / mu + (double) ref::norm(eu[1]));
        double tv = 1e-8 * (sc + sc / mv + (double) ref::norm(ev[1]));
        PBT_CHECK(ref::dist(glue::to3(gu), eu[1]) <= tu, "u derivative at (", u, ",", v, "): ", pbt::str(gu), " expected ", (double) eu[1][0], ",", (double) eu[1][1], ",", (double) eu[1][2]);
        PBT_CHECK(ref::dist(glue::to3(gv), ev[1]) <= tv, "v derivative at (", u, ",", v, "): ", pbt::str(gv), " expected ", (double) ev[1][0], ",", (double) ev[1][1], ",", (double) ev[1][2]);
        auto x = ref::cross(eu[1], ev[1]);
        double nx = (double) ref::norm(x), lu = (double) ref::norm(eu[1]), lv = (double) ref::norm(ev[1]);
        double cond = (tu * lv + tv * lu + tu * tv);
        if (nx > 1e-3 * lu * lv && nx > 1e3 * cond && nx > 0) {
            k.normal(u, v, n);
            PBT_CHECK(std::fabs((double) ref::norm(glue::to3(n)) - 1) <= 1e-9, "the normal has length ", (double) ref::norm(glue::to3(n)));
            PBT_CHECK(ref::dist(glue::to3(n), ref::mul(x, 1 / (ref::ld) nx)) <= 1e-9 + 10 * cond / nx, "normal at (", u, ",", v, ")");
            if (d.P.size() > 2 || d.P[0].size() > 2 || d.rational) c.nontrivial();
            c.label("regular point");
        }
    }
    if (mode == 1) {
        c.label("derivative surface");
        for (int dir = 0; dir < 2; ++dir) {
            NURBSSurface g;
            if (s.flag()) g = k.get_derivative(dir);
            else k.get_derivative(dir, g);
            int p = d.p - (dir == 0), q = d.q - (dir == 1);
            PBT_CHECK(g._degree[0] == p && g._degree[1] == q, "degrees of the derivative surface");
            PBT_CHECK(g.shape()[0] == d.P.size() - (dir == 0) && g.shape()[1] == d.P[0].size() - (dir == 1), "size of the derivative surface");
            PBT_CHECK(g.interval() == k.interval(), "domain of the derivative surface");
            auto &kn = dir ? d.V : d.U;
            int deg = dir ? d.q : d.p;
            bool full = false;   // a C0 knot: the derivative is not continuous there, its control net is undefined
            for (double t: gen::distinct(kn)) full = full || (t != kn.front() && t != kn.back() && std::count(kn.begin(), kn.end(), t) >= deg + 0);
            if (full && deg > 1) { c.label("C0 knot"); }
            for (int i = 0; i < 4; ++i) {
                double u = gen::inside(s, d.U, 0), v = gen::inside(s, d.V, 0);
                if (i == 1) u = s.flag() ? d.U.front() : d.U.back();
                if (i == 2) v = s.flag() ? d.V.front() : d.V.back();
                auto on = [](const std::vector<double> &kk, double t) { return t != kk.front() && t != kk.back() && std::count(kk.begin(), kk.end(), t) > 0; };
                if (on(d.U, u) || on(d.V, v)) continue;
                auto want = dir ? r.dv(u, v) : r.du(u, v);
                vec3 y;
                g.evaluate(u, v, y);
                double t = 1e-8 * (sc + (double) ref::norm(want));
                double span = kn.back() - kn.front();
                for (size_t a = 0; a + 1 < kn.size(); ++a) if (kn[a + 1] > kn[a]) span = std::min(span, kn[a + 1] - kn[a]);
                t += 1e-9 * sc * deg / span;
                PBT_CHECK(ref::dist(glue::to3(y), want) <= t, "derivative surface ", dir, " at (", u, ",", v, "): ", pbt::str(y), " expected ", (double) want[0], ",", (double) want[1], ",", (double) want[2]);
            }
        }
        bool thrown = false;
        try { (void) k.get_derivative(2 + (int) s.below(3)); } catch (const std::exception &) { thrown = true; }
        PBT_CHECK(thrown, "a direction other than 0 and 1 is accepted");
    }
    if (d.rational) c.label("rational");
}
