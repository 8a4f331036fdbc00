#include "pbt.h"
#include "simpson_ref.h"
#include "cmmcore/integrate.h"
using namespace cmmcore;
using ld = long double;
const pbt::Spec SPEC = {"C35",
    "sums of a polynomial of degree up to 8, a sine, an exponential, a peak and a square-root term with known antiderivatives over finite intervals in either orientation, empty ones included, tolerances 1e-2 to 1e-12; the error is allowed four tolerances plus what the published adaptive Simpson rule with the same tolerance leaves on the same integrand (computed in long double). Cubics exactly; the reported error, orientation, additivity, use of the output arguments, number of evaluations under a depth limit (also for steps and poles); inversion for positive integrands. "
    "non-trivial: an integrand that is not a cubic, over a non-empty interval",
    60000, 2000000, 8};

struct F {
    std::vector<double> a;     // polynomial about c
    double c = 0, A = 0, k = 1, ph = 0, B = 0, l = 1, P = 0, w = 1, x0 = 0, S = 0;
    ld operator()(ld x) const {
        ld r = 0, t = x - c;
        for (size_t i = a.size(); i-- > 0;) r = r * t + a[i];
        if (A) r += A * sinl(k * x + ph);
        if (B) r += B * expl(l * x);
        if (P) r += P / (1 + (x - x0) * (x - x0) / ((ld) w * w));
        if (S) r += S * sqrtl(1 + t * t);
        return r;
    }
    ld anti(ld x) const {
        ld r = 0, t = x - c;
        for (size_t i = a.size(); i-- > 0;) r = (r + a[i] / (ld) (i + 1)) * t;
        if (A) r -= A / k * cosl(k * x + ph);
        if (B) r += B / l * expl(l * x);
        if (P) r += P * w * atanl((x - x0) / w);
        if (S) r += S * (t * sqrtl(1 + t * t) + asinhl(t)) / 2;
        return r;
    }
    ld big(ld lo, ld hi) const {   // bound of the summands over the interval
        ld t = std::max(fabsl(lo - c), fabsl(hi - c)), r = 0, q = 1;
        for (double x: a) r += fabsl(x * q), q *= t;
        r += fabsl((ld) A) + (B ? fabsl(B) * std::max(expl(l * lo), expl(l * hi)) : 0) + fabsl((ld) P) + fabsl((ld) S) * (1 + t);
        return r;
    }
};
static std::ostream &operator<<(std::ostream &o, const F &f) {
    o << "poly about " << f.c << " [";
    for (double x: f.a) o << x << " ";
    o << "] + " << f.A << " sin(" << f.k << "x+" << f.ph << ") + " << f.B << " exp(" << f.l << "x) + " << f.P << "/(1+((x-" << f.x0 << ")/" << f.w << ")^2) + " << f.S << " sqrt(1+(x-c)^2)";
    return o;
}
void property(pbt::Src &s, pbt::Ctx &c) {
    const int digits = 2 + (int) s.below(11);
    double tol = digits == 8 ? 1e-8 : std::pow(10.0, -digits);
    const bool dflt = tol == 1e-8 && s.flag();   // the tolerance not given
    if (s.chance(1, 6)) {   // inversion: positive integrand that varies by less than half
        F f;
        double m = std::vector<double>{1, 0.1, 10}[s.below(3)];
        f.a = {m};
        f.A = 0.12 * m * s.unit();
        f.k = s.real(0.2, 3);
        f.ph = s.real(0, 6);
        if (s.flag()) f.P = 0.15 * m * s.unit(), f.w = s.real(0.5, 3), f.x0 = s.zint(4);
        double t0 = s.coord(5), t1 = t0 + s.coord(5), guess = s.flag() ? t0 : t1 + s.coord(3);
        tol = std::max(tol, 1e-10);
        double I = (double) (f.anti(t1) - f.anti(t0));
        c.show([&](auto &o) { o << "invert " << f << " from " << t0 << " integral " << I << " guess " << guess << " tol " << tol; });
        std::function<double(double)> g = [&](double x) { return (double) f(x); };
        double t = dflt ? find_t1_newton(t0, I, g, guess) : find_t1_newton(t0, I, g, guess, tol);
        ld want = f.anti(t) - f.anti(t0);
        auto S = [&](ld x) { return f(x); };
        PBT_CHECK(std::isfinite(t), "the inversion gives ", t);
        // what the published rule leaves at the limits Newton's method passes through
        ld pub = fabsl(simp::integrate(S, t0, t, tol) - want), x = guess;
        for (int i = 0; i < 20; ++i) {
            ld G = simp::integrate(S, t0, x, tol);
            pub = std::max(pub, fabsl(G - (f.anti(x) - f.anti(t0))));
            ld y = x - (G - I) / f(x);
            if (fabsl(y - x) < tol) break;
            x = y;
        }
        PBT_CHECK(std::isfinite(t), "the inversion gives ", t);
        PBT_CHECK(fabsl(want - I) <= 4 * tol + 2 * m * tol + 2 * pub + 1e-13L * m * (1 + fabsl((ld) t - t0)), "upper limit ", t, " (expected ", t1, ") has the integral ", (double) want, ", asked for ", I);
        c.nontrivial();
        c.label("inversion");
        return;
    }
    if (s.chance(1, 10)) {   // rough integrands: the depth limit holds
        int kind = (int) s.below(4), depth = (int) s.below(9);
        double at = s.coord(3), lo = at - s.unit() * 3 - 0.01, hi = at + s.unit() * 3;
        long calls = 0;
        std::function<double(double)> g = [&](double x) -> double {
            ++calls;
            switch (kind) {
                case 0: return x < at ? 0.0 : 1.0;
                case 1: return x == at ? 0 : 1 / (x - at);
                case 2: return std::sin(1e6 * x);
                default: return std::numeric_limits<double>::quiet_NaN();
            }
        };
        double r = 5, e = 5;
        c.show([&](auto &o) { o << "rough " << kind << " at " << at << " over " << lo << ".." << hi << " depth " << depth; });
        integrate(g, lo, hi, r, e, tol, depth);
        PBT_CHECK(calls <= 3 + 2 * ((1l << (depth + 1)) - 1), calls, " evaluations with a depth limit of ", depth);
        c.label("depth limit");
        return;
    }
    F f;
    int deg = (int) s.below(9);
    f.c = s.zint(2);
    for (int i = 0; i <= deg; ++i) f.a.push_back(s.coord(5) / (1 << i));
    if (s.chance(1, 3)) f.A = s.coord(3), f.k = s.real(0.5, 12), f.ph = s.coord(3);
    if (s.chance(1, 4)) f.B = s.coord(2), f.l = s.real(-1.5, 1.5) + 0.001;
    if (s.chance(1, 4)) f.P = s.coord(10), f.w = std::vector<double>{1, 0.1, 0.01}[s.below(3)], f.x0 = s.coord(2);
    if (s.chance(1, 4)) f.S = s.coord(3);
    bool cubic = deg <= 3 && !f.A && !f.B && !f.P && !f.S;
    double a = s.coord(4), b = s.chance(1, 12) ? a : s.coord(4), mid = s.flag() ? a + (b - a) * s.unit() : s.coord(4);
    // a scale of the integrand only scales the tolerance
    c.show([&](auto &o) { o << f << " over " << a << ".." << b << " via " << mid << " tol " << tol; });
    std::vector<double> at;
    std::function<double(double)> g = [&](double x) { if (at.size() < 50000) at.push_back(x); return (double) f(x); };
    auto run = [&](double x, double y) {
        double r = s.flag() ? 123.0 : std::nan(""), e = -7;
        at.clear();
        if (dflt) integrate(g, x, y, r, e);
        else integrate(g, x, y, r, e, tol);
        PBT_CHECK(e >= 0 && std::isfinite(e), "error estimate ", e);
        // the estimate exceeds the tolerance only where the depth limit (20 halvings) ended the refinement
        if (at.size() < 50000 && x != y) {
            std::sort(at.begin(), at.end());
            double gap = std::fabs(y - x);
            for (size_t i = 0; i + 1 < at.size(); ++i) if (at[i + 1] > at[i]) gap = std::min(gap, at[i + 1] - at[i]);
            if (gap > 1.5 * std::fabs(y - x) / (1 << 22) || (cubic && tol >= 1e-6)) {
                PBT_CHECK(e <= tol * (1 + 1e-9), "an error of ", e, " is reported although the tolerance is ", tol, " and the depth limit was not reached");
                c.label("estimate");
            }
        }
        return r;
    };
    auto S = [&](ld x) { return f(x); };
    auto check = [&](double x, double y) {
        double r = run(x, y);
        ld want = f.anti(y) - f.anti(x), pub = fabsl(simp::integrate(S, x, y, tol) - want);
        ld big = f.big(std::min(x, y), std::max(x, y)), round = 1e-14L * (big * fabsl((ld) y - x) + fabsl(f.anti(x)) * 1e-3L);
        if (cubic) {
            PBT_CHECK(fabsl(r - want) <= round, "a cubic over ", x, "..", y, " gives ", r, ", expected ", (double) want);
        }
        PBT_CHECK(fabsl(r - want) <= 4 * tol + 1.01L * pub + round, "the integral over ", x, "..", y, " is ", r, ", expected ", (double) want, ", error ", (double) (r - want), ", tolerance ", tol, ", published rule ", (double) pub);
        if (x == y) PBT_CHECK(r == 0, "the integral over an empty interval is ", r);
        return std::make_pair(r, 4 * tol + 1.01L * pub + round);
    };
    auto r1 = check(a, b), r2 = check(b, a), r3 = check(a, mid), r4 = check(mid, b);
    PBT_CHECK(fabsl((ld) r1.first + r2.first) <= r1.second + r2.second, "exchanging the limits does not change the sign: ", r1.first, " and ", r2.first);
    PBT_CHECK(fabsl((ld) r1.first - r3.first - r4.first) <= r1.second + r3.second + r4.second, "not additive: ", r1.first, " but ", r3.first, " + ", r4.first);
    if (!cubic && a != b) c.nontrivial();
    c.label(cubic ? "cubic" : f.P ? "peak" : "smooth");
}
