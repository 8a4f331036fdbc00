#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C02",
    "random clamped curves (degree 1..8, repeated knots, weights), parameters inside spans, at the ends and at knots where the curve is smooth enough; derivative orders up to 10. "
    "non-trivial: degree >= 2 and a parameter strictly inside a span",
    1600000, 16000000, 10};

static double mag(const ref::P3 &v) { return (double) ref::norm(v); }

void property(pbt::Src &s, pbt::Ctx &c) {
    gen::CurveOpt o;
    o.mag = 20;
    auto d = gen::curve(s, o);
    bool equal_w = !d.rational;
    if (equal_w && s.chance(1, 4)) {
        double w = gen::weight(s);
        for (auto &q: d.P) for (double &x: q) x *= w;
        c.label("equal weights other than 1");
    }
    double u;
    bool interior = false;
    if (s.chance(3, 4)) {
        u = gen::inside(s, d.U);
        interior = true;
    } else {
        u = s.flag() ? d.U.back() : d.U.front();
        c.label("domain end");
    }
    c.show([&](auto &o) { o << d << " at " << u; });
    auto r = d.ref();
    auto D = r.ders(u, 10);
    auto k = glue::curve(d);
    double sc = d.scale();
    // rounding of a derivative of order j grows like scale * (degree / shortest span)^j
    double h = 1e300;
    auto ds = gen::distinct(d.U);
    for (size_t i = 0; i + 1 < ds.size(); ++i) h = std::min(h, ds[i + 1] - ds[i]);
    double wmin = 1e300, wmax = 0, off = 1e300;
    for (auto &q: d.P) wmin = std::min(wmin, q[3]), wmax = std::max(wmax, q[3]);
    for (double x: ds) off = std::min(off, std::fabs(u - x));
    double g = d.p / h * (d.rational ? std::max(16.0, wmax / wmin) : 1);
    auto tol = [&](int j) { return 1e-9 * sc * std::max(1.0, std::pow(g, j)); };
    vec3 d1;
    k.derivative(u, d1);
    double err = (double) ref::dist(glue::to3(d1), D[1]);
    PBT_CHECK(err <= tol(1), "first derivative at ", u, " off by ", err, ": ", d1.x, ",", d1.y, ",", d1.z, " expected ", (double) D[1][0], ",",
              (double) D[1][1], ",", (double) D[1][2]);
    int n = 1 + (int) s.below(10);
    std::vector<vec3> L;
    if (s.flag()) k.derivative(u, L, n);
    else {
        L.resize(n);
        k.derivative(u, L);
    }
    PBT_CHECK((int) L.size() == n, "asked for ", n, " derivatives, got ", L.size());
    for (int j = 0; j < n; ++j) {
        double e = (double) ref::dist(glue::to3(L[j]), D[j]);
        PBT_CHECK(e <= tol(j) + 1e-9 * mag(D[j]), "derivative of order ", j, " off by ", e);
        if (!d.rational && j > d.p) {
            PBT_CHECK(std::fabs(L[j].x) <= tol(j) && std::fabs(L[j].y) <= tol(j) && std::fabs(L[j].z) <= tol(j), "order above the degree");
            c.label("order above the degree");
        }
    }
    // finite differences, inside a span only
    if (interior && off > 1.5e-5) {
        double hh = 1e-5, t1 = 0, t2 = 0, f = 1;
        for (int j = 3; j <= 10; ++j) {
            f *= 4;  // generous constant per order
            t1 += mag(D[j]) * std::pow(hh, j - 1) * f;
            if (j >= 4) t2 += mag(D[j]) * std::pow(hh, j - 2) * f;
        }
        double away = 1e-10 * (1 + std::fabs(u)) * mag(D[1]);   // the parameters themselves are rounded
        double tf = 1e-8 * sc + t1 + away, ts = 2e-4 * sc + t2 + away / hh;
        vec3 a, b, e, f1;
        k.derivatives(u, a, b, e);
        PBT_CHECK(ref::dist(glue::to3(a), D[0]) <= 1e-9 * sc, "derivatives(): point");
        PBT_CHECK(ref::dist(glue::to3(b), D[1]) <= tf, "derivatives(): first off by ", (double) ref::dist(glue::to3(b), D[1]), " allowed ", tf);
        PBT_CHECK(ref::dist(glue::to3(e), D[2]) <= ts, "derivatives(): second off by ", (double) ref::dist(glue::to3(e), D[2]), " allowed ", ts);
        k.derivative_fdm(u, f1);
        PBT_CHECK(ref::dist(glue::to3(f1), D[1]) <= tf, "finite-difference first derivative");
        k.second_derivative_fdm(u, f1);
        PBT_CHECK(ref::dist(glue::to3(f1), D[2]) <= ts, "finite-difference second derivative off by ", (double) ref::dist(glue::to3(f1), D[2]));
        if (d.p >= 2) c.nontrivial();
    }
    if (equal_w) {
        NURBSCurve q = k.get_derivative(), q2;
        k.get_derivative(q2);
        glue::same_curve(q, q2, "derivative curve");
        PBT_CHECK(q.get_degree() == d.p - 1 && q.get_control_points().size() == d.P.size() - 1 && q.get_knots().size() == d.U.size() - 2,
                  "derivative curve structure");
        PBT_CHECK(q.interval()[0] == d.U.front() && q.interval()[1] == d.U.back(), "derivative curve domain");
        vec3 v = q(u);
        PBT_CHECK(ref::dist(glue::to3(v), D[1]) <= tol(1), "derivative curve at ", u);
        // and once more: the derivative of the derivative
        if (d.p >= 2) {
            int mx = 0;
            for (double x: ds) mx = std::max(mx, (int) std::count(d.U.begin() + d.p + 1, d.U.end() - d.p - 1, x));
            if (mx < d.p) {
                NURBSCurve w = q.get_derivative();
                vec3 v2 = w(u);
                PBT_CHECK(ref::dist(glue::to3(v2), D[2]) <= tol(2), "second derivative curve at ", u);
                c.label("second derivative curve");
            }
        }
    }
    if (d.rational) c.label("rational");
    if (d.p > 3) c.label("degree>3");
    if (d.multi) c.label("repeated interior knots");
}
