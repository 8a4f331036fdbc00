#include "nurbs_glue.h"
#include "simpson_ref.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C06",
    "curves of degree 1..5 (clamped, and unclamped on the range where the basis functions add up to one) whose control points advance along an axis with perturbations (regular, no cusps), rational and not, and sub-intervals; arc length is compared with composite Gauss quadrature of the "
    "reference derivative on every span. non-trivial: at least one interior knot or a proper sub-interval",
    20000, 400000, 10};

static ref::ld gauss_length(const ref::Curve &r, ref::ld a, ref::ld b) {
    static const ref::ld x[5] = {0, 0.538469310105683091036314420700208805L, -0.538469310105683091036314420700208805L,
                                 0.906179845938663992797626878299392965L, -0.906179845938663992797626878299392965L};
    static const ref::ld w[5] = {0.568888888888888888888888888888888889L, 0.478628670499366468041291514835638193L,
                                 0.478628670499366468041291514835638193L, 0.236926885056189087514264040719917362L,
                                 0.236926885056189087514264040719917362L};
    ref::ld tot = 0;
    std::vector<ref::ld> k{a};
    for (auto u: r.U) if (u > a && u < b && u != k.back()) k.push_back(u);
    k.push_back(b);
    auto dA = r.deriv();
    for (size_t i = 0; i + 1 < k.size(); ++i) {
        int n = 12;
        for (int j = 0; j < n; ++j) {
            ref::ld c0 = k[i] + (k[i + 1] - k[i]) * j / n, c1 = k[i] + (k[i + 1] - k[i]) * (j + 1) / n;
            for (int q = 0; q < 5; ++q) {
                ref::ld u = (c0 + c1) / 2 + (c1 - c0) / 2 * x[q];
                auto A = r.eval4(u), D = dA.eval4(u);
                ref::P3 v;
                for (int z = 0; z < 3; ++z) v[z] = (D[z] - D[3] * A[z] / A[3]) / A[3];
                tot += w[q] * (c1 - c0) / 2 * ref::norm(v);
            }
        }
    }
    return tot;
}

void property(pbt::Src &s, pbt::Ctx &c) {
    gen::CurveData d;
    d.p = s.range(1, 5);
    // the speed has to be smooth for an adaptive rule to promise its tolerance: interior knots leave C2 continuity
    int n = d.p + 1 + (d.p >= 3 ? (int) s.below(6) : 0);
    d.rational = s.chance(1, 3);
    auto k = gen::knots(s, n, d.p, std::max(1, d.p - 2));
    d.U = k.k;
    // knots that are not clamped: the curve is defined where the basis functions add up to one
    bool open = d.p >= 2 && s.chance(1, 6);
    if (open) {
        double h = (d.U.back() - d.U.front()) / (n - d.p);
        for (int i = 1; i <= d.p; ++i) {
            d.U[d.p - i] = d.U[d.p - i + 1] - h * (0.5 + s.unit());
            d.U[n + i] = d.U[n + i - 1] + h * (0.5 + s.unit());
        }
        c.label("unclamped");
    }
    double step = 0.5 + 3 * s.unit();
    double ay = 2 * s.unit(), az = 2 * s.unit();
    for (int i = 0; i < n; ++i) {
        double x = step * (i + 0.35 * (2 * s.unit() - 1)), y = ay * step * (2 * s.unit() - 1), z = az * step * (2 * s.unit() - 1);
        double w = d.rational ? 0.6 + s.unit() : 1.0;
        d.P.push_back({x * w, y * w, z * w, w});
    }
    c.show([&](auto &o) { o << d; });
    auto r = d.ref();
    NURBSCurve cv = glue::curve(d);
    double lo = d.U[d.p], hi = d.U[n];
    bool dflt = !open && s.chance(1, 4);
    double tol = dflt ? 1e-3 : std::vector<double>{1e-3, 1e-5, 1e-7}[s.below(3)];
    double a = lo, b = hi;
    int form = (int) s.below(3);
    if (form >= 1) b = lo + (hi - lo) * s.unit();
    if (form >= 2) a = lo + (hi - lo) * s.unit();
    if (a > b) std::swap(a, b);
    double L;
    if (form == 0) L = dflt ? cv.length() : cv.length(lo, hi, tol);
    else if (form == 1) L = dflt ? cv.length(b) : cv.length(lo, b, tol);
    else L = cv.length(a, b, tol);
    double want = (double) gauss_length(r, a, b);
    double chord = (double) ref::dist(r.eval(a), r.eval(b));
    // Adaptive Simpson can accept a panel by coincidence; the published rule does so on the same curve.
    auto dA = r.deriv();
    auto speedf = [&](ref::ld u) {
        auto A = r.eval4(u), D = dA.eval4(u);
        ref::P3 v;
        for (int z = 0; z < 3; ++z) v[z] = (D[z] - D[3] * A[z] / A[3]) / A[3];
        return ref::norm(v);
    };
    auto allowance = [&](ref::ld x, ref::ld y, double tl) {
        return 10 * tl + 1e-9 * want + 2 * std::fabs((double) (simp::integrate(speedf, x, y, tl) - gauss_length(r, x, y)));
    };
    double allow = allowance(a, b, tol);
    c.show([&](auto &o) { o << " length on [" << a << "," << b << "] tol " << tol << " = " << L << " reference " << want; });
    PBT_CHECK(std::fabs(L - want) <= allow, "length ", L, " expected ", want, " tol ", tol);
    PBT_CHECK(L >= chord - allow, "shorter than the chord");
    if (d.U.size() > 2u * (d.p + 1) || form) c.nontrivial();
    PBT_CHECK(std::fabs(cv.length(a, a, tol)) == 0, "empty interval has length");
    // additivity
    double m = a + (b - a) * s.unit();
    double L1 = cv.length(a, m, tol), L2 = cv.length(m, b, tol);
    PBT_CHECK(std::fabs(L1 + L2 - L) <= allow + allowance(a, m, tol) + allowance(m, b, tol), "not additive: ", L1, "+", L2, " vs ", L);
    // invariance: knot insertion and a rotation + translation
    if (s.flag()) {
        NURBSCurve q = cv;
        double t = open ? lo + (hi - lo) * (0.04 + 0.92 * s.unit()) : gen::inside(s, d.U, 0.05);
        if (open && std::any_of(d.U.begin(), d.U.end(), [&](double x) { return std::fabs(x - t) < 1e-6; })) return;
        q.insert_knot(t, 1);
        double Lq = q.length(a, b, tol);
        PBT_CHECK(std::fabs(Lq - want) <= allow, "length changes with knot insertion: ", Lq, " vs ", want);
    } else {
        auto dm = d;
        double al = s.unit() * 6.283;
        for (auto &q: dm.P) {
            double x = q[0], z = q[2];
            q[0] = cos(al) * x - sin(al) * z + 3 * q[3];
            q[2] = sin(al) * x + cos(al) * z - 7 * q[3];
        }
        double Lq = glue::curve(dm).length(a, b, tol);
        PBT_CHECK(std::fabs(Lq - want) <= allow, "length changes with a rigid motion");
    }
    if (d.rational) c.label("rational");
    // inversion
    if (want > 1e-2) {
        double full = (double) gauss_length(r, lo, hi);
        double tgt = full * (0.02 + 0.96 * s.unit());
        bool plain = !open && s.chance(1, 4);   // the form that starts in the middle of the domain
        if (plain) tgt = (double) gauss_length(r, lo, 0.5 * (lo + hi)) * (0.9 + 0.2 * s.unit());
        double tl = s.flag() ? 1e-5 : 1e-7;
        // start Newton's method near the answer (bisection on the reference): convergence from afar is not promised
        double x0 = lo, x1 = hi;
        for (int i = 0; i < 40; ++i) {
            double mm = 0.5 * (x0 + x1);
            (gauss_length(r, lo, mm) < tgt ? x0 : x1) = mm;
        }
        double guess = x0 + (hi - lo) * 0.02 * (2 * s.unit() - 1);
        guess = std::min(std::max(guess, lo), hi);
        if (plain) guess = 0.5 * (lo + hi);
        // Newton's method is only promised to converge from a start close to the answer: the speed may not vary much there
        double tl_noise = allowance(lo, guess, tl);
        double delta = std::fabs(guess - x0) + 2 * tl_noise / (double) speedf(x0);
        double smin = 1e300, smax = 0;
        for (int i = -8; i <= 8; ++i) {
            double q = x0 + 3 * delta * i / 8;
            if (q < lo || q > hi) { smin = 0; break; }
            double v = (double) speedf(q);
            smin = std::min(smin, v);
            smax = std::max(smax, v);
        }
        if (!(smax < 1.5 * smin)) return;
        double t = plain ? cv.lengthAt(tgt, tl) : cv.lengthAt(tgt, lo, guess, tl);
        PBT_CHECK(t >= lo - 0.05 * (hi - lo) && t <= hi + 0.05 * (hi - lo), "lengthAt left the domain: ", t);
        double tt = std::min(std::max(t, lo), hi);
        double got = (double) gauss_length(r, lo, tt);
        double al2 = 2 * (allowance(lo, tt, tl) + allowance(lo, x0, tl) + tl_noise) + 8 * smax * tl;
        PBT_CHECK(std::fabs(got - tgt) <= al2, "lengthAt(", tgt, ") = ", t, " which has length ", got);
        c.label(plain ? "inverted from the middle" : "inverted");
    }
}
