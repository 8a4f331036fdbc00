#include "pbt.h"
#include "cmmcore/minimize_scalar.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C36",
    "unimodal functions with a known minimiser inside, at or outside the bounds (powers and skewed powers of the distance, cosh, exp minus line, distance, plateaus of a quantised parabola), arbitrary continuous and noisy functions, functions that return NaN or infinity, bounds that are equal, adjacent, large, tiny or invalid, tolerances 1e-2 to 1e-10 and small iteration limits; every evaluation is recorded. "
    "non-trivial: a unimodal function with the minimiser strictly inside the bounds and a sufficient iteration limit",
    6000000, 60000000, 8};

void property(pbt::Src &s, pbt::Ctx &c) {
    if (s.chance(1, 16)) {   // invalid bounds
        double bad = std::vector<double>{NAN, INFINITY, -INFINITY}[s.below(3)], x = s.coord(5);
        std::pair<double, double> b = s.flag() ? std::make_pair(bad, x) : std::make_pair(x, bad);
        if (s.flag()) b = {x + 1e-3 + s.unit(), x};
        c.show([&](auto &o) { o << "bounds " << b.first << ".." << b.second; });
        bool threw = false, called = false;
        OptimizeResult<double> r;
        try { minimize_scalar_bounded<double>([&](double t) { called = true; return t; }, b, r); } catch (const std::invalid_argument &) { threw = true; }
        PBT_CHECK(threw && !called, "invalid bounds are not rejected");
        c.label("invalid bounds");
        return;
    }
    double xatol = std::pow(10.0, -(2 + (int) s.below(9)));
    int maxiter = s.chance(1, 4) ? 1 + (int) s.below(15) : 500;
    double sc = std::vector<double>{1, 100, 1e-3, 1e4}[s.below(4)];
    double lo = s.coord(5) * sc, w = s.chance(1, 12) ? 0 : s.chance(1, 8) ? 1e-9 * s.unit() : s.unit() * 6 * sc, hi = lo + w;
    int kind = (int) s.below(9);
    double m = lo + (hi - lo) * s.real(-0.3, 1.3);   // minimiser, possibly outside
    if (s.chance(1, 8)) m = s.flag() ? lo : hi;
    double amp = std::vector<double>{1, 1e3, 1e-2}[s.below(3)], p = s.real(1, 4), skew = s.real(0.05, 1), q = w > 0 ? 6 / w : 1, add = s.coord(10) * amp;
    bool unimodal = kind < 6;
    uint64_t noise = s.below(1 << 20);
    auto value = [&](double x) -> double {
        double d = (x - m) * q;   // width of the interval is 6
        switch (kind) {
            case 0: return amp * d * d;
            case 1: return amp * std::pow(std::fabs(d), p);
            case 2: return amp * (d < 0 ? std::pow(-d, p) * skew : std::pow(d, 1 + skew));
            case 3: return 2 * amp * std::pow(std::sinh(d / 2), 2);
            case 4: return amp * (std::fabs(d) < 1e-4 ? d * d * (0.5 + d / 6) : std::expm1(d) - d);
            case 5: return amp * std::fabs(d);
            case 6: return amp * (std::sin(d * 3) + 0.1 * d * d);
            case 7: { uint64_t u; memcpy(&u, &x, 8); return amp * (double) (pbt::mix(u ^ noise) % 1000); }
            default: return noise % 3 == 0 ? std::nan("") : noise % 3 == 1 ? INFINITY : (x > m ? std::nan("") : -x);
        }
    };
    if (unimodal && s.flag()) add = 0;   // with a constant added the resolution is limited, see below
    if (!unimodal) add = 0;
    struct Ev { double x, f; };
    std::vector<Ev> ev;
    std::function<double(double)> f = [&](double x) {
        double y = value(x) + add;
        ev.push_back({x, y});
        if (ev.size() > 2000) throw pbt::Failure{"more than 2000 evaluations"};
        return y;
    };
    c.show([&](auto &o) { o << "kind " << kind << " minimiser " << m << " in " << lo << ".." << hi << " amplitude " << amp << " p " << p << " skew " << skew << " add " << add << " xatol " << xatol << " maxiter " << maxiter << " noise " << noise; });
    OptimizeResult<double> r{777, 777, 777, true, "x", 777, 777};
    minimize_scalar_bounded<double>(f, {lo, hi}, r, xatol, maxiter);
    PBT_CHECK(!ev.empty() && (int) ev.size() <= std::max(1, maxiter), ev.size(), " evaluations, permitted are ", maxiter);
    PBT_CHECK(r.nfev == (int) ev.size(), "reports ", r.nfev, " evaluations, made ", ev.size());
    bool found = false;
    for (auto &e: ev) {
        PBT_CHECK(e.x >= lo && e.x <= hi, "evaluates at ", e.x, " outside ", lo, "..", hi);
        found = found || (e.x == r.x && (e.f == r.fun || (std::isnan(e.f) && std::isnan(r.fun))));
    }
    PBT_CHECK(r.x >= lo && r.x <= hi, "returns ", r.x, " outside ", lo, "..", hi);
    PBT_CHECK(found, "returns (", r.x, ",", r.fun, ") which is not a point of the function it evaluated");
    bool nan = false;
    for (auto &e: ev) nan = nan || std::isnan(e.f);
    if (!nan) for (auto &e: ev) PBT_CHECK(r.fun <= e.f, "returns the value ", r.fun, " although ", e.f, " was seen at ", e.x);
    PBT_CHECK(r.success == (r.status == 0), "success and status ", r.status, " disagree");
    auto says = [&](const char *t) { return r.message.find(t) != std::string::npos; };
    PBT_CHECK(says("found") == (r.status == 0) && says("function calls") == (r.status == 1) && says("NaN") == (r.status == 2), "status ", r.status, " is described as: ", r.message);
    if (std::isnan(r.fun) || (ev.size() == 1 && nan)) PBT_CHECK(!r.success, "a NaN result is reported as a success");
    if (maxiter > 1 && (int) ev.size() < maxiter && !nan) PBT_CHECK(r.success, "fails with status ", r.status, " before the limit of evaluations");
    c.label(unimodal ? "unimodal" : "rough");
    if (!unimodal || !r.success || nan) return;
    double want = std::min(hi, std::max(lo, m));
    // the method stops when the bracket is below 2*(sqrt(eps)|x|+xatol/3)*2; equal values in a flat bottom limit the resolution too
    double tol = 3 * (1.5e-8 * std::fabs(r.x) + xatol / 3) + xatol;
    // flat bottom: all points whose value cannot be told from the minimum
    double fmin = value(want) + add, eps = 4e-16 * (std::fabs(add) + std::fabs(fmin));
    bool flat = value(r.x) + add <= fmin + 500 * eps + 1e-300;
    PBT_CHECK(std::fabs(r.x - want) <= tol || flat, "returns ", r.x, ", the minimiser is ", want, ", off by ", std::fabs(r.x - want), " with tolerance ", xatol);
    if (m > lo && m < hi) c.nontrivial();
}
