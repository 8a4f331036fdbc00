#include "nurbs_glue.h"
#include "cmmcore/ccx.h"
using namespace cmmcore;
using ld = long double;
const pbt::Spec SPEC = {"C16",
    "pairs of clamped curves of degree 1..5 (rational or not; spatial, or both in one plane of arbitrary position) moved so that they cross at chosen parameters (interior, at knots, at the middle, at ends) at an angle of at least 15 degrees, or kept apart by a gap of more than three tolerances; tolerances 1e-2..1e-6 of the size. "
    "Every reported pair is checked against the reference, every constructed crossing has to be reported. non-trivial: a constructed crossing, or a separated pair whose boxes overlap",
    40000, 400000, 8};

void property(pbt::Src &s, pbt::Ctx &c) {
    gen::CurveOpt o; o.wide = false;
    o.pmin = 1;
    o.pmax = 5;
    o.extra = 4;
    o.mag = 10;
    o.max_mult = 2;
    auto a = gen::curve(s, o), b = gen::curve(s, o);
    int plane = (int) s.below(3);   // 0: spatial, 1: z = const, 2: tilted plane
    if (plane) {
        double zc = s.flag() ? s.zint(20) / 10.0 : s.coord(3);
        for (auto *d: {&a, &b})
            for (auto &q: d->P) {
                q[2] = zc * q[3];
                if (plane == 2) q[2] += 0.3 * q[0] - 0.7 * q[1];
            }
        c.label(plane == 1 ? "in a plane z=const" : "in a tilted plane");
    }
    // crossing parameters
    auto pick = [&](const gen::CurveData &d) {
        switch (s.below(4)) {
            case 0: return 0.5 * (d.U.front() + d.U.back());
            case 1: return s.of(gen::distinct(d.U));
            case 2: return s.flag() ? d.U.front() : d.U.back();
            default: return d.U.front() + (d.U.back() - d.U.front()) * s.unit();
        }
    };
    double ta = pick(a), tb = pick(b);
    auto X = a.ref().eval(ta), Y = b.ref().eval(tb);
    auto shift = [&](const ref::P3 &v) {
        for (auto &q: b.P) for (int k = 0; k < 3; ++k) q[k] += (double) v[k] * q[3];
    };
    bool crossing = !s.chance(1, 4);
    double sc = std::max(a.scale(), b.scale());
    double tol = sc * std::vector<double>{1e-2, 1e-3, 1e-4, 1e-6}[s.pick({2, 4, 3, 1})];
    shift(ref::sub(X, Y));
    auto ra = a.ref();
    double gap = 0;
    if (!crossing) {
        // push b beyond a along a random direction
        ref::P3 n{s.coord(1), s.coord(1), s.coord(1)};
        if (plane == 1) n[2] = 0;
        if (plane == 2) n[2] = 0.3 * n[0] - 0.7 * n[1];
        if (ref::norm(n) < 0.1) return;
        n = ref::mul(n, 1 / ref::norm(n));
        ref::ld amax = -1e300L, bmin = 1e300L;
        for (auto &q: a.P) amax = std::max(amax, (n[0] * q[0] + n[1] * q[1] + n[2] * q[2]) / q[3]);
        for (auto &q: b.P) bmin = std::min(bmin, (n[0] * q[0] + n[1] * q[1] + n[2] * q[2]) / q[3]);
        gap = 3.5 * tol + (s.flag() ? 0 : s.unit() * sc);
        shift(ref::mul(n, amax - bmin + gap));
        c.label("apart");
    }
    auto rb = b.ref();
    c.show([&](auto &os) { os << "A " << a << " B " << b << " tol " << tol; if (crossing) os << " crossing at " << ta << "," << tb; });
    bool angle_ok = false;
    if (crossing) {
        angle_ok = true;
        auto sides = [&](const gen::CurveData &d, const ref::Curve &r, double t) {   // one-sided tangents at a knot
            std::vector<ref::P3> v;
            if (t < d.U.back()) v.push_back(r.ders(t, 1)[1]);
            if (t > d.U.front()) v.push_back(r.ders(t, 1, true)[1]);
            return v;
        };
        for (auto &x: sides(a, ra, ta))
            for (auto &y: sides(b, rb, tb)) {
                auto nx = ref::norm(x), ny = ref::norm(y);
                if (nx < 1e-2 * a.scale() || ny < 1e-2 * b.scale() || ref::norm(ref::cross(x, y)) < 0.26 * nx * ny) angle_ok = false;
            }
    }
    NURBSCurve A = glue::curve(a), B = glue::curve(b);
    if (s.chance(1, 6)) {   // built empty, then filled through the public member
        NURBSCurve T(a.P.size(), a.p);
        T.control_points = glue::pts(a.P);
        std::vector<double> kn = a.U;
        T.set_knots(kn);
        A = T;
        c.label("filled by member");
    }
    NURBSCurve A0 = A, B0 = B;
    // tangential overlaps are not in scope (their number of results is unbounded): cheap pre-check on angles only
    if (crossing && !angle_ok) return;
    std::vector<std::pair<double, double>> R;
    ccx(A, B, tol, R);
    glue::same_curve(A, A0, "first operand");
    glue::same_curve(B, B0, "second operand");
    for (auto &q: R) {
        PBT_CHECK(q.first >= a.U.front() && q.first <= a.U.back() && q.second >= b.U.front() && q.second <= b.U.back(), "parameters (", q.first, ",", q.second, ") outside the domains");
        double df = (double) ref::dist(ra.eval(q.first), rb.eval(q.second));
        PBT_CHECK(df <= 3.2 * tol, "the curves are ", df, " apart at the reported (", q.first, ",", q.second, "), tolerance ", tol);
    }
    // no faster than their hodographs allow: reports in a row are farther than the tolerance apart along one of the curves
    ld fast[2] = {0, 0};
    for (int k = 0; k < 2; ++k) {
        auto &d = k ? b : a;
        for (auto &q: d.P) if (q[3] != 1) fast[k] = -1;
        if (fast[k] == 0)
            for (size_t i = 0; i + 1 < d.P.size(); ++i) {
                ld w = (ld) d.U[i + d.p + 1] - d.U[i + 1], l = 0;
                for (int j = 0; j < 3; ++j) l += ((ld) d.P[i + 1][j] - d.P[i][j]) * ((ld) d.P[i + 1][j] - d.P[i][j]);
                if (w > 0) fast[k] = std::max(fast[k], d.p * sqrtl(l) / w);
            }
    }
    if (fast[0] > 0 && fast[1] > 0)
        for (size_t i = 1; i < R.size(); ++i)
            PBT_CHECK(std::fabs(R[i].first - R[i - 1].first) * fast[0] > 0.99L * tol || std::fabs(R[i].second - R[i - 1].second) * fast[1] > 0.99L * tol, "the pair (", R[i].first, ",", R[i].second, ") is reported twice in a row, tolerance ", tol);
    if (!crossing) {
        PBT_CHECK(R.empty(), "curves ", gap, " apart intersect ", R.size(), " times, tolerance ", tol);
        c.nontrivial();
        return;
    }
    c.nontrivial();
    bool found = false;
    double best = 1e300;
    for (auto &q: R) {
        double d1 = (double) ref::dist(ra.eval(q.first), X), d2 = (double) ref::dist(rb.eval(q.second), X);
        best = std::min(best, std::max(d1, d2));
    }
    // both points are within the tolerance of each other and the curves cross at >= 15 degrees
    found = best <= 40 * tol;
    PBT_CHECK(found, "the crossing at (", ta, ",", tb, ") is not among the ", R.size(), " results; nearest is ", best, " away, tolerance ", tol);
    if (R.size() > 1) c.label("several results");
}
