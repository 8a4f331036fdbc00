#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C48",
    "curves (degree 1..6) and surfaces (degrees 1..4) whose knots are not clamped at one or both ends (uniform, uneven, repeated interior knots, periodic curves made by make_periodic), rational or not; evaluation, derivatives, histories of knot insertions, splits, isocurves and boxes, on the range of parameters where the basis functions add up to one. "
    "non-trivial: at least one insertion or split of an object of degree 2 or more that is unclamped at an end",
    180000, 1800000, 8};

// knots for n control points of degree p; ends: 0 clamped, 1 simple, 2 partly repeated
static std::vector<double> knots(pbt::Src &s, int n, int p, bool &open) {
    bool uniform = s.chance(1, 3);
    double start = s.zint(16) / 4.0, scale = std::vector<double>{1, 0.25, 3}[s.below(3)];
    auto step = [&] { return uniform ? 1.0 : s.flag() ? 0.25 * (1 + (double) s.below(8)) : 0.2 + 1.8 * s.unit(); };
    int e0 = (int) s.below(3), e1 = (int) s.below(3);
    if (e0 == 0 && e1 == 0) e0 = 1;
    open = true;
    std::vector<double> k;
    double cur = start;
    for (int i = 0; i <= p; ++i) {
        if (i && (e0 == 1 || (e0 == 2 && s.flag()))) cur += scale * step();
        k.push_back(cur);
    }
    int left = n - p - 1;
    while (left > 0) {
        cur += scale * step();
        int m = s.chance(1, 4) ? 1 + (int) s.below(std::min(left, p)) : 1;
        for (int i = 0; i < m; ++i) k.push_back(cur);
        left -= m;
    }
    cur += scale * step();
    k.push_back(cur);
    for (int i = 0; i < p; ++i) {
        if (e1 == 1 || (e1 == 2 && s.flag())) cur += scale * step();
        k.push_back(cur);
    }
    return k;
}
static double interior(pbt::Src &s, const std::vector<double> &k, double a, double b) {   // strictly between a and b: a knot or well inside a span
    std::vector<double> in, d;
    for (double x: k) if (x > a && x < b && (in.empty() || in.back() != x)) in.push_back(x);
    d.push_back(a), d.insert(d.end(), in.begin(), in.end()), d.push_back(b);
    if (!in.empty() && s.chance(1, 3)) return s.of(in);
    size_t i = s.below(d.size() - 1);
    return d[i] + (d[i + 1] - d[i]) * (0.04 + 0.92 * s.unit());
}
static std::vector<double> samples(const std::vector<double> &k, double a, double b) {
    std::vector<double> d{a}, r;
    for (double x: k) if (x > d.back() && x < b) d.push_back(x);
    d.push_back(b);
    for (size_t i = 0; i + 1 < d.size(); ++i) for (double f: {0.0, 0.31, 0.77}) r.push_back(d[i] + f * (d[i + 1] - d[i]));
    r.push_back(b);
    return r;
}

static void curves(pbt::Src &s, pbt::Ctx &c) {
    gen::CurveData d;
    bool open = false, periodic = s.chance(1, 5);
    d.p = s.range(1, 6);
    int n = d.p + 1 + (int) s.below(8);
    d.rational = s.flag();
    d.P = gen::points(s, n, s.flag() ? 1 : 50, d.rational);
    d.U = knots(s, n, d.p, open);
    NURBSCurve k;
    if (periodic) {
        k = NURBSCurve(glue::pts(d.P), d.p, true);
        d.U = k.get_knots();
        d.P.clear();
        for (auto &q: k.get_control_points()) d.P.push_back({q.x, q.y, q.z, q.w});
        n = (int) d.P.size();
        c.label("periodic");
    } else k = glue::curve(d);
    c.show([&](auto &o) { o << (periodic ? "periodic " : "") << d; });
    double a = d.U[d.p], b = d.U[n], tol = 1e-9 * d.scale();
    auto r = d.ref();
    auto same = [&](const NURBSCurve &x, double lo, double hi, const char *what) {
        auto now = glue::as_ref(x);
        AABB box = x.aabb();
        for (double t: samples(x.get_knots(), lo, hi)) {
            auto want = r.eval(t), got = now.eval(t);
            PBT_CHECK(ref::dist(want, got) <= tol, what, ": the data describe another point at ", t, ", off by ", (double) ref::dist(want, got));
            auto lib = glue::to3(x(t));
            PBT_CHECK(ref::dist(want, lib) <= tol, what, ": evaluated at ", t, " it is off by ", (double) ref::dist(want, lib));
            for (int i = 0; i < 3; ++i) PBT_CHECK(box.min[i] - tol <= want[i] && want[i] <= box.max[i] + tol, what, ": the box does not contain the point at ", t);
        }
    };
    same(k, a, b, "the curve");
    {   // derivatives
        double t = interior(s, {}, a, b);
        bool beside = false;
        for (double x: d.U) beside = beside || std::fabs(x - t) < 1e-6;
        if (!beside) {
            int m = std::min(d.p, 3);
            std::vector<vec3> D(m + 1);
            k.derivative(t, D);
            auto want = r.ders(t, m);
            double span = 1e300;
            for (size_t i = 0; i + 1 < d.U.size(); ++i) if (d.U[i + 1] > d.U[i]) span = std::min(span, d.U[i + 1] - d.U[i]);
            double sc = d.scale();
            for (int i = 0; i <= m; ++i, sc *= 4 * d.p / span)
                PBT_CHECK(ref::dist(want[i], glue::to3(D[i])) <= 1e-8 * sc * (d.rational ? 16 : 1), "derivative ", i, " at ", t, " is ", pbt::str(D[i]));
        }
    }
    int ops = 1 + (int) s.below(4);
    std::vector<double> expect = d.U;
    for (int i = 0; i < ops; ++i) {
        double t = interior(s, expect, a, b);
        int mult = (int) std::count(expect.begin(), expect.end(), t);
        if (s.chance(2, 3)) {
            if (mult >= d.p) continue;
            int cnt = 1 + (int) s.below(d.p - mult);
            c.show([&](auto &o) { o << " insert " << t << " x" << cnt; });
            k.insert_knot(t, cnt);
            expect.insert(std::upper_bound(expect.begin(), expect.end(), t), cnt, t);
            PBT_CHECK(k.get_knots() == expect, "knot vector after inserting ", t, " x", cnt);
            PBT_CHECK(k.get_control_points().size() == expect.size() - d.p - 1, "control points after insertion");
            same(k, a, b, "after the insertion");
        } else {
            if (mult > d.p) continue;
            c.show([&](auto &o) { o << " split " << t; });
            auto [x, y] = k.split(t);
            for (auto *q: {&x, &y}) PBT_CHECK(q->get_knots().size() == q->get_control_points().size() + d.p + 1 && q->get_degree() == d.p, "a part has ", q->get_control_points().size(), " control points and ", q->get_knots().size(), " knots");
            PBT_CHECK(std::is_sorted(x.get_knots().begin(), x.get_knots().end()) && std::is_sorted(y.get_knots().begin(), y.get_knots().end()), "knots of a part decrease");
            same(x, a, t, "the first part");
            same(y, t, b, "the second part");
            c.label("split");
            if (s.flag()) {
                bool second = s.flag();
                k = second ? y : x;
                expect = k.get_knots();
                (second ? a : b) = t;
            }
        }
        if (d.p >= 2 && open) c.nontrivial();
    }
}

static void surfaces(pbt::Src &s, pbt::Ctx &c) {
    gen::SurfData d;
    bool ou = false, ov = false;
    d.p = s.range(1, 4), d.q = s.range(1, 4);
    int n = d.p + 1 + (int) s.below(4), m = d.q + 1 + (int) s.below(4);
    d.rational = s.flag();
    for (int i = 0; i < n; ++i) d.P.push_back(gen::points(s, m, 10, d.rational));
    d.U = knots(s, n, d.p, ou), d.V = knots(s, m, d.q, ov);
    if (s.chance(1, 4)) d.V = gen::knots(s, m, d.q, 99).k;
    NURBSSurface k = glue::surface(d);
    c.show([&](auto &o) { o << d; });
    double A[2] = {d.U[d.p], d.V[d.q]}, B[2] = {d.U[n], d.V[m]}, tol = 1e-9 * d.scale();
    auto r = d.ref();
    auto same = [&](const NURBSSurface &x, const double *lo, const double *hi, const char *what) {
        auto now = glue::as_ref(x);
        AABB box = x.aabb();
        for (int i = 0; i < 12; ++i) {
            double f = i < 4 ? i & 1 : s.unit(), g = i < 4 ? i / 2 : s.unit();
            double u = f == 1 ? hi[0] : lo[0] + f * (hi[0] - lo[0]), v = g == 1 ? hi[1] : lo[1] + g * (hi[1] - lo[1]);
            auto want = r.eval(u, v);
            PBT_CHECK(ref::dist(want, now.eval(u, v)) <= tol, what, ": the data describe another point at ", u, ",", v, ", off by ", (double) ref::dist(want, now.eval(u, v)));
            vec3 y;
            x.evaluate(u, v, y);
            PBT_CHECK(ref::dist(want, glue::to3(y)) <= tol, what, ": evaluated at ", u, ",", v, " it is off by ", (double) ref::dist(want, glue::to3(y)));
            for (int j = 0; j < 3; ++j) PBT_CHECK(box.min[j] - tol <= want[j] && want[j] <= box.max[j] + tol, what, ": the box does not contain the point at ", u, ",", v);
        }
    };
    same(k, A, B, "the surface");
    int ops = 1 + (int) s.below(4);
    for (int i = 0; i < ops; ++i) {
        int dir = (int) s.below(2), deg = dir ? d.q : d.p;
        auto &K = dir ? k._knots_v : k._knots_u;
        double t = interior(s, K, A[dir], B[dir]);
        int mult = (int) std::count(K.begin(), K.end(), t);
        switch (s.below(3)) {
            case 0: {
                if (mult >= deg) continue;
                int cnt = 1 + (int) s.below(deg - mult);
                c.show([&](auto &o) { o << (dir ? " insert v " : " insert u ") << t << " x" << cnt; });
                auto expect = K;
                expect.insert(std::upper_bound(expect.begin(), expect.end(), t), cnt, t);
                if (dir) k.insert_knot_v(t, cnt);
                else k.insert_knot_u(t, cnt);
                PBT_CHECK((dir ? k._knots_v : k._knots_u) == expect, "knots after insertion");
                same(k, A, B, "after the insertion");
                break;
            }
            case 1: {
                c.show([&](auto &o) { o << (dir ? " split v " : " split u ") << t; });
                auto [x, y] = dir ? k.split_surface_v(t) : k.split_surface_u(t);
                double hi[2] = {B[0], B[1]}, lo[2] = {A[0], A[1]};
                hi[dir] = t, lo[dir] = t;
                same(x, A, hi, "the first part");
                same(y, lo, B, "the second part");
                c.label("split");
                if (s.flag()) {
                    bool second = s.flag();
                    k = second ? y : x;
                    (second ? A : B)[dir] = t;
                }
                break;
            }
            default: {
                NURBSCurve e = k.extract_isocurve(t, dir ? SurfaceParameter::V : SurfaceParameter::U);
                c.show([&](auto &o) { o << (dir ? " isocurve v " : " isocurve u ") << t; });
                for (int j = 0; j < 5; ++j) {
                    double x = A[1 - dir] + (B[1 - dir] - A[1 - dir]) * (j == 4 ? 1 : s.unit());
                    auto want = dir ? r.eval(x, t) : r.eval(t, x);
                    PBT_CHECK(ref::dist(want, glue::to3(e(x))) <= tol, "the isocurve leaves the surface at ", x);
                }
                c.label("isocurve");
                continue;
            }
        }
        if (deg >= 2) c.nontrivial();
    }
}

void property(pbt::Src &s, pbt::Ctx &c) {
    if (s.chance(3, 5)) curves(s, c);
    else {
        c.label("surface");
        surfaces(s, c);
    }
}
