#include "scene.h"
#include "cmmcore/ssx.h"
using namespace cmmcore;
using scene::P3;
typedef long double ld;
const pbt::Spec SPEC = {"C20",
    "regular curves (degrees 1..5) and well-shaped patches (degrees 1..3), rational or not, with arbitrary knots; a foot parameter anywhere in the domain, its ends included, a point on the object or off it along a normal by up to a fifth of the radius of curvature, and a start within the neighbourhood in which the tangents turn by less than a tenth: the returned parameters evaluate to the foot within the tolerances. "
    "Also arbitrary starts, points and iteration limits: the returned parameters are in the domain. Tangent-plane steps against the combination they were built from. "
    "non-trivial: a start that differs from the foot by more than ten tolerances",
    150000, 2000000, 8};

static void curve_case(pbt::Src &s, pbt::Ctx &c) {
    gen::CurveOpt o; o.wide = false;
    o.pmin = 1;
    o.pmax = 5;
    o.extra = 4;
    o.mag = 10;
    auto a = gen::curve(s, o);
    auto r = a.ref();
    NURBSCurve k = glue::curve(a);
    double sc = a.scale(), t0 = a.U.front(), t1 = a.U.back();
    if (s.chance(1, 4)) {
        double st = s.chance(1, 4) ? (s.flag() ? t0 : t1) : t0 + (t1 - t0) * s.unit();
        vec3 P(s.coord(3 * sc), s.coord(3 * sc), s.coord(3 * sc));
        double tol1 = sc * std::pow(10., -2 - (int) s.below(8)), tol2 = std::pow(10., -2 - (int) s.below(8));
        int it = s.flag() ? 100 : (int) s.below(10);
        c.show([&](auto &w) { w << a << " point " << pbt::str(P) << " from " << st << " tolerances " << tol1 << " " << tol2 << " at most " << it << " steps"; });
        double u = point_inversion_curve(k, P, st, tol1, tol2, it);
        PBT_CHECK(u >= t0 && u <= t1, "the parameter ", u, " is outside the domain");
        c.label("anywhere");
        return;
    }
    double ut;
    switch (s.below(4)) {
        case 0: ut = t0; break;
        case 1: ut = t1; break;
        default: ut = gen::inside(s, a.U, 0.02);
    }
    auto ks = gen::distinct(a.U);
    size_t cell = 0;
    while (cell + 2 < ks.size() && ut >= ks[cell + 1]) ++cell;
    double lo = ks[cell], hi = ks[cell + 1], w = hi - lo;
    auto D0 = r.ders(ut, 1);
    ld len = ref::norm(D0[1]), var = 0;
    double del = 0.3 * w;
    if (lo > t0) del = std::min(del, 0.5 * (ut - lo));   // the tangent may turn there
    if (hi < t1) del = std::min(del, 0.5 * (hi - ut));
    bool ok = false;
    for (int i = 0; i < 12 && !ok; ++i, del *= 0.5) {
        var = 0;
        for (int j = -4; j <= 4; ++j) {
            double t = std::min(hi, std::max(lo, ut + del * j / 4));
            if (t == ut) continue;
            // the end of a cell belongs to the next one
            if (t == hi) t = hi - 1e-9 * w;
            var = std::max(var, ref::dist(r.ders(t, 1)[1], D0[1]) / std::fabs((ld) (t - ut)));
        }
        ok = var * del < 0.1L * len;
        if (ok) break;
    }
    if (!ok || len * w < 1e-3 * sc || len * del < 1e-4 * sc) { c.label("not regular there"); return; }
    double u0 = std::min(hi, std::max(lo, ut + del * s.real(-1, 1)));
    P3 n = scene::direction(s);
    n = ref::sub(n, ref::mul(D0[1], ref::dot(n, D0[1]) / (len * len)));
    ld nl = ref::norm(n), d = 0;
    if (nl > 0.1 && s.chance(2, 3)) {
        d = (ld) s.unit() * std::min((ld) sc, var > 0 ? 0.2L * len * len / var : (ld) sc);
        n = ref::mul(n, d / nl);
    } else n = {0, 0, 0};
    auto X = D0[0];
    vec3 P = glue::from3(ref::add(X, n));
    double tol1 = sc * std::pow(10., -3 - (int) s.below(6)), tol2 = std::pow(10., -3 - (int) s.below(6));
    c.show([&](auto &o) { o << a << " foot " << ut << " point " << pbt::str(P) << " off by " << (double) d << " from " << u0 << " tolerances " << tol1 << " " << tol2; });
    double u = s.flag() ? point_inversion_curve(k, P, u0, tol1, tol2) : point_inversion_curve(k, P, u0, tol1, tol2, 60);
    PBT_CHECK(u >= t0 && u <= t1, "the parameter ", u, " is outside the domain");
    double e = (double) ref::dist(r.eval(u), X), bound = 3 * (tol1 + tol2 * (double) d) + 1e-9 * sc;
    PBT_CHECK(e <= bound, "returned ", u, ", which is ", e, " off the foot at ", ut, ", tolerances ", tol1, " ", tol2, ", offset ", (double) d);
    if ((double) ref::dist(r.eval(u0), X) > 10 * (tol1 + tol2 * (double) d)) c.nontrivial();
    c.label(pbt::str("curve ", d > 0 ? "off" : "on", ut == t0 || ut == t1 ? " end" : ""));
}

static void surface_case(pbt::Src &s, pbt::Ctx &c) {
    double h = std::vector<double>{1, 0.1, 10}[s.below(3)];
    scene::PatchOpt po;
    auto d = scene::patch(s, po, h);
    auto r = d.ref();
    NURBSSurface k = glue::surface(d);
    auto pk = [&](const std::vector<double> &kn) {
        switch (s.below(5)) {
            case 0: return kn.front();
            case 1: return kn.back();
            default: return gen::inside(s, kn, 0.02);
        }
    };
    auto inside = [&](double u, double v) { return u >= d.U.front() && u <= d.U.back() && v >= d.V.front() && v <= d.V.back(); };
    if (s.chance(1, 4)) {
        double u0 = pk(d.U), v0 = pk(d.V), sc = d.scale();
        vec3 P(s.coord(3 * sc), s.coord(3 * sc), s.coord(3 * sc));
        double tol1 = h * std::pow(10., -2 - (int) s.below(8)), tol2 = std::pow(10., -2 - (int) s.below(8));
        int it = s.flag() ? 100 : (int) s.below(10);
        c.show([&](auto &w) { w << d << " point " << pbt::str(P) << " from " << u0 << "," << v0 << " tolerances " << tol1 << " " << tol2 << " at most " << it << " steps"; });
        try {
            auto q = point_inversion_surface(k, P, u0, v0, tol1, tol2, it);
            PBT_CHECK(inside(q[0], q[1]), "the parameters ", q[0], ",", q[1], " are outside the domain");
        } catch (const std::runtime_error &) { c.label("singular"); }
        c.label("anywhere");
        return;
    }
    double u = pk(d.U), v = pk(d.V);
    auto bounds = [](const std::vector<double> &kn, double t) {
        auto ks = gen::distinct(kn);
        size_t i = 0;
        while (i + 2 < ks.size() && t >= ks[i + 1]) ++i;
        return std::make_pair(ks[i], ks[i + 1]);
    };
    auto [ul, uh] = bounds(d.U, u);
    auto [vl, vh] = bounds(d.V, v);
    double cu = uh - ul, cv = vh - vl;
    auto X = r.eval(u, v);
    P3 Su = ref::mul(r.du(u, v), cu), Sv = ref::mul(r.dv(u, v), cv), N = ref::cross(Su, Sv);
    ld nn = ref::norm(N), big = std::max(ref::norm(Su), ref::norm(Sv)), sig = big > 0 ? nn / (big * 1.5L) : 0;
    double del = 0.3;
    if (ul > d.U.front()) del = std::min(del, 0.5 * (u - ul) / cu);
    if (uh < d.U.back()) del = std::min(del, 0.5 * (uh - u) / cu);
    if (vl > d.V.front()) del = std::min(del, 0.5 * (v - vl) / cv);
    if (vh < d.V.back()) del = std::min(del, 0.5 * (vh - v) / cv);
    ld rate = 0;
    bool ok = false;
    for (int i = 0; i < 10; ++i, del *= 0.5) {
        rate = 0;
        for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) {
            double x = std::min(uh - 1e-9 * cu, std::max(ul, u + del * cu * a / 2)), y = std::min(vh - 1e-9 * cv, std::max(vl, v + del * cv * b / 2));
            ld step = std::max(std::fabs((ld) (x - u)) / cu, std::fabs((ld) (y - v)) / cv);
            if (step < 1e-6) continue;
            rate = std::max(rate, std::max(ref::dist(ref::mul(r.du(x, y), cu), Su), ref::dist(ref::mul(r.dv(x, y), cv), Sv)) / step);
        }
        ok = rate * del < 0.05L * sig;
        if (ok) break;
    }
    if (!ok || del < 1e-3 || sig < 0.02 * h || sig < 0.1 * big) { c.label("not regular there"); return; }
    double u0 = std::min(uh, std::max(ul, u + 0.7 * del * cu * s.real(-1, 1))), v0 = std::min(vh, std::max(vl, v + 0.7 * del * cv * s.real(-1, 1)));
    ld off = 0;
    P3 n{0, 0, 0};
    if (s.chance(2, 3)) {
        off = (ld) s.unit() * std::min((ld) h, rate > 0 ? 0.1L * sig * sig / rate : (ld) h);
        n = ref::mul(N, (s.flag() ? 1 : -1) * off / nn);
    }
    vec3 P = glue::from3(ref::add(X, n));
    double tol1 = h * std::pow(10., -3 - (int) s.below(6)), tol2 = std::pow(10., -3 - (int) s.below(6));
    c.show([&](auto &o) { o << d << " foot " << u << "," << v << " point " << pbt::str(P) << " off by " << (double) off << " from " << u0 << "," << v0 << " tolerances " << tol1 << " " << tol2; });
    std::array<double, 2> q;
    bool robust = s.chance(1, 4);
    if (robust) {
        vec3 du, dv, x0;
        k.derivative_u(u0, v0, du);
        k.derivative_v(u0, v0, dv);
        k.evaluate(u0, v0, x0);
        vec2 uv;
        tol2 = tol1;
        if (s.chance(1, 3)) {
            tol1 = tol2 = 1e-7;
            improve_uv_robust(k, vec2(u0, v0), du, dv, x0, P, uv);
        } else improve_uv_robust(k, vec2(u0, v0), du, dv, x0, P, uv, tol1);
        q = {uv.x, uv.y};
    } else if (s.flag()) q = point_inversion_surface(k, P, u0, v0, tol1, tol2);
    else q = point_inversion_surface(k, P, u0, v0, tol1, tol2, 60);
    PBT_CHECK(inside(q[0], q[1]), "the parameters ", q[0], ",", q[1], " are outside the domain");
    double e = (double) ref::dist(r.eval(q[0], q[1]), X), cond = (double) (big / sig), bound = 4 * cond * (tol1 + tol2 * (double) off) + 1e-9 * d.scale();
    PBT_CHECK(e <= bound, "returned ", q[0], ",", q[1], ", which is ", e, " off the foot at ", u, ",", v, ", tolerances ", tol1, " ", tol2, ", offset ", (double) off);
    if ((double) ref::dist(r.eval(u0, v0), X) > 10 * cond * (tol1 + tol2 * (double) off)) c.nontrivial();
    c.label(pbt::str("surface ", off > 0 ? "off" : "on", u == d.U.front() || u == d.U.back() || v == d.V.front() || v == d.V.back() ? " end" : "", robust ? " robust" : ""));
}

static void step_case(pbt::Src &s, pbt::Ctx &c) {
    double m = std::vector<double>{1, 0.01, 100}[s.below(3)];
    auto v3 = [&]() { return vec3(m * s.coord(1), m * s.coord(1), m * s.coord(1)); };
    vec3 du = v3(), dv = v3();
    double a = s.coord(2), b = s.coord(2);
    ld nx = (ld) du.y * dv.z - (ld) du.z * dv.y, ny = (ld) du.z * dv.x - (ld) du.x * dv.z, nz = (ld) du.x * dv.y - (ld) du.y * dv.x;
    ld n = std::max(std::fabs(nx), std::max(std::fabs(ny), std::fabs(nz))), l = (ld) du.length() * dv.length();
    vec3 delta(a * du.x + b * dv.x, a * du.y + b * dv.y, a * du.z + b * dv.z);
    c.show([&](auto &o) { o << "du " << pbt::str(du) << " dv " << pbt::str(dv) << " step " << a << " " << b; });
    if (n < 1e-3 * l || n < 1e-7) { c.label("parallel tangents"); return; }
    vec2 out(0, 0);
    bool ok = ssx_helpers::improve_uv(du, dv, delta, out);
    PBT_CHECK(ok, "no step found although the tangents are independent");
    double eps = 1e-10 * (std::fabs(a) + std::fabs(b) + 1) * (double) (l / n) * std::max(1., std::max(du.length() / dv.length(), dv.length() / du.length()));
    PBT_CHECK(std::fabs(out.x - a) <= eps && std::fabs(out.y - b) <= eps, "step ", out.x, ",", out.y, " expected ", a, ",", b);
    c.nontrivial();
    c.label("step");
}

void property(pbt::Src &s, pbt::Ctx &c) {
    switch (s.pick({4, 4, 1})) {
        case 0: return curve_case(s, c);
        case 1: return surface_case(s, c);
        default: return step_case(s, c);
    }
}
