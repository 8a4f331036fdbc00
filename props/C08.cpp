#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C08",
    "control polygons of degree 1..8 with more points than the degree (weights equal or not), made periodic by construction or by make_periodic; closure and derivative continuity across the seam are checked against the reference on the knot range where the curve is defined. "
    "non-trivial: degree at least 2 and at least degree+2 points",
    1500000, 15000000, 8};

void property(pbt::Src &s, pbt::Ctx &c) {
    int p = s.range(1, 8);
    int n = p + 1 + (int) s.below(8);
    bool rational = s.chance(1, 3);
    std::vector<std::array<double, 4>> P;
    for (int i = 0; i < n; ++i) {
        double w = rational ? gen::weight(s) : 1.0;
        double x = s.coord(50), y = s.coord(50), z = s.coord(50);
        P.push_back({x * w, y * w, z * w, w});
    }
    int wrap = 0;
    if (s.chance(1, 4) && n > 2 * p) {   // a polygon that already repeats its first degree points
        for (int i = 0; i < p; ++i) P[n - p + i] = P[i];
        wrap = 1;
    } else if (s.chance(1, 6) && p > 1) {  // almost: differs in a single component
        for (int i = 0; i < p && n > 2 * p; ++i) P[n - p + i] = P[i];
        P[n - 1 - s.below(p)][s.below(4)] += 0.5;
    }
    bool already = true;
    for (int j = 0; j < p; ++j)
        for (int k = 0; k < 4; ++k) already = already && P[j][k] == P[n - p + j][k];
    c.show([&](auto &o) {
        o << "degree " << p << " points";
        for (auto &q: P) o << " (" << q[0] << "," << q[1] << "," << q[2] << "," << q[3] << ")";
    });
    double sc = 1;
    for (auto &q: P) for (int k = 0; k < 3; ++k) sc = std::max(sc, std::fabs(q[k] / q[3]));
    auto pts = glue::pts(P);
    NURBSCurve open(pts, p);
    // with clamped knots a closed polyline is all that is periodic
    PBT_CHECK(open.is_periodic() == (already && p == 1), "is_periodic of an open curve with a polygon that ", already ? "wraps" : "does not wrap", " says ", open.is_periodic());
    PBT_CHECK(!open._periodic, "an open curve is flagged periodic");
    int form = (int) s.below(5);
    NURBSCurve cv = form == 0 ? NURBSCurve(pts, p, true) : open;
    if (form == 3) {   // from the number of points
        auto W = P;
        if (!already) for (int i = 0; i < p; ++i) W.push_back(P[i]);
        cv = NURBSCurve(W.size(), p, true);
        cv.set_control_points(glue::pts(W));
        form = 0;
        c.label("from the number of points");
    } else if (form == 4) {
        if (p == (n >= 4 ? 3 : 1)) cv = NURBSCurve(pts, true), c.label("default degree");
        else if (!rational && !wrap) {
            std::vector<vec3> v;
            bool unit = true;
            for (auto &q: P) v.push_back(vec3(q[0], q[1], q[2])), unit = unit && q[3] == 1;
            cv = unit ? NURBSCurve(v, p, true) : NURBSCurve(pts, p, true);
            c.label("from points without weights");
        } else cv = NURBSCurve(pts, p, true);
        form = 0;
    }
    if (form == 1) cv.make_periodic();
    if (form == 2) {
        cv = open;
        cv.make_periodic();
        NURBSCurve again = cv;
        again.make_periodic();
        PBT_CHECK(again.get_control_points().size() == cv.get_control_points().size() && again.get_knots() == cv.get_knots(), "making it periodic twice changes it");
    }
    if (form != 0 && already && p == 1) return;   // a closed polyline is left alone
    auto &Q = cv.get_control_points();
    size_t m = already ? n : n + p;
    PBT_CHECK(Q.size() == m, Q.size(), " control points, expected ", m);
    for (size_t i = 0; i < m; ++i) {
        auto &e = P[i % (already ? n : n)];
        PBT_CHECK(Q[i].x == e[0] && Q[i].y == e[1] && Q[i].z == e[2] && Q[i].w == e[3], "control point ", i);
    }
    PBT_CHECK(cv.is_periodic() && cv._periodic, "a periodic curve is not reported as periodic");
    auto &U = cv.get_knots();
    PBT_CHECK(U.size() == m + p + 1, "number of knots");
    double h = U[1] - U[0];
    PBT_CHECK(h > 0, "knots do not increase");
    for (size_t i = 0; i + 1 < U.size(); ++i) PBT_CHECK(std::fabs(U[i + 1] - U[i] - h) < 1e-12 * h, "knots are not uniform");
    double a = U[p], b = U[m];
    auto r = glue::as_ref(cv);
    auto close = [&](double u, double v, const char *w) {
        vec3 x, y;
        cv.evaluate(u, x);
        cv.evaluate(v, y);
        double df = ref::dist(glue::to3(x), glue::to3(y));
        PBT_CHECK(df <= 1e-9 * sc, w, ": distance ", df);
    };
    close(a, b, "the ends of the curve differ");
    for (int i = 0; i < 3; ++i) {
        double u = a + (b - a) * s.unit();
        vec3 x;
        cv.evaluate(u, x);
        PBT_CHECK(ref::dist(glue::to3(x), r.eval(u)) <= 1e-9 * sc, "evaluation at ", u);
        // the same curve from any starting point: rotate the polygon by one
    }
    std::vector<vec3> d0(p + 1), d1(p + 1);
    cv.derivative(a, d0);
    cv.derivative(b, d1);
    for (int k = 1; k < p; ++k) {
        double mag = 1 + ref::norm(glue::to3(d0[k]));
        double scale = sc;
        for (int i = 1; i <= k; ++i) scale *= 4 * p;
        PBT_CHECK(ref::dist(glue::to3(d0[k]), glue::to3(d1[k])) <= 1e-8 * (mag + scale), "derivative ", k, " jumps across the seam: ", pbt::str(d0[k]), " ", pbt::str(d1[k]));
    }
    // the shape does not depend on the first point
    if (!already) {
        auto R = P;
        std::rotate(R.begin(), R.begin() + 1, R.end());
        NURBSCurve rot(glue::pts(R), p, true);
        if (rot.get_control_points().size() == m) {
            double t = (b - a) * s.unit(), L = b - a;
            double u0 = a + std::fmod(t + h, L), u1 = rot.get_knots()[p] + t;
            vec3 x, y;
            cv.evaluate(u0, x);
            rot.evaluate(u1, y);
            PBT_CHECK(ref::dist(glue::to3(x), glue::to3(y)) <= 1e-8 * sc, "starting from the next point gives another curve at ", t);
        }
    }
    // a polygon that wraps is not enough: where the knots do not repeat with the period the ends differ
    if (wrap && p > 1 && n > 2 * p) {
        const int spans = n - p;
        std::vector<double> d(spans), K(n + p + 1);
        for (auto &x: d) x = 0.5 + s.unit();
        K[p] = s.chance(1, 2) ? 0.0 : s.coord(10);
        for (int i = p + 1; i <= n + p; ++i) K[i] = K[i - 1] + d[(i - p - 1) % spans];
        for (int i = p - 1; i >= 0; --i) K[i] = K[i + 1] - d[((i - p) % spans + spans) % spans];
        int k = s.chance(1, 2) ? 1 + (int) s.below(p - 1) : n + 1 + (int) s.below(p - 1);
        // move one of the knots outside the range of the curve, and those beyond it with it
        double by = 0.3 + 2 * s.unit();
        if (k < p) for (int i = k; i >= 0; --i) K[i] -= by;
        else for (int i = k; i <= n + p; ++i) K[i] += by;
        NURBSCurve half(pts, p, K, false);
        auto q = glue::as_ref(half);
        double gap = ref::dist(q.eval(K[p]), q.eval(K[n]));
        if (gap > 1e-4 * sc) {
            PBT_CHECK(!half.is_periodic(), "a curve whose ends are ", gap, " apart is reported as periodic (knot ", k, " of ", n + p + 1, " does not repeat)");
            half.make_periodic();
            PBT_CHECK(half.is_periodic(), "made periodic from a polygon that wraps: not reported as periodic");
            vec3 x, y;
            half.evaluate(half.get_knots()[p], x);
            half.evaluate(half.get_knots()[half.get_control_points().size()], y);
            PBT_CHECK(ref::dist(glue::to3(x), glue::to3(y)) <= 1e-9 * sc, "made periodic from a polygon that wraps: the ends differ");
            c.label("knots that repeat in part");
        }
    }
    if (p >= 2 && n >= p + 2) c.nontrivial();
    if (already) c.label("already wrapped");
    if (rational) c.label("rational");
}
