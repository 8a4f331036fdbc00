#include "pbt.h"
#include <iostream>
#include "cmmcore/newthon2.h"
using namespace cmmcore;
using ld = long double;
const pbt::Spec SPEC = {"C37",
    "strictly convex functions of 1 to 4 variables with known minimiser (quadratics with eigenvalues between 0.3 and 10 in a random basis, optionally plus sums of cosh-1, log-cosh, sqrt(1+x^2)-1 and fourth powers of coordinates about the minimiser, a constant added), starts up to 10 away, tolerances 1e-3..1e-8, iteration limits from 0; sums of fewer squares than variables; numerical gradients and Hessians of the same functions against the exact ones; and non-convex, flat, linear, noisy, discontinuous, NaN- or infinity-valued functions for termination and descent. "
    "non-trivial: at least two variables and a start farther than 0.5 from the minimiser",
    1200000, 15000000, 8};

struct Quiet {   // the library reports numeric trouble on stderr
    std::streambuf *b;
    Quiet() : b(std::cerr.rdbuf(nullptr)) {}
    ~Quiet() { std::cerr.rdbuf(b); std::cerr.clear(); }
};
template<size_t N>
struct Fun {
    std::array<std::array<double, N>, N> A{};
    Vector<N> m{};
    std::array<double, N> k{};
    int extra = 0;
    double add = 0;
    double operator()(const Vector<N> &x) const {
        ld r = add;
        for (size_t i = 0; i < N; ++i) {
            for (size_t j = 0; j < N; ++j) r += 0.5L * A[i][j] * ((ld) x[i] - m[i]) * ((ld) x[j] - m[j]);
            ld d = (ld) x[i] - m[i];
            switch (extra) {
                case 1: r += k[i] * (std::cosh(0.3L * d) - 1); break;
                case 2: r += k[i] * std::log(std::cosh(d)); break;
                case 3: r += k[i] * (std::sqrt(1 + d * d) - 1); break;
                case 4: r += k[i] * 0.01L * d * d * d * d; break;
                default: break;
            }
        }
        return (double) r;
    }
    void exact(const Vector<N> &x, std::array<ld, N> &g, std::array<std::array<ld, N>, N> &H) const {
        for (size_t i = 0; i < N; ++i) {
            g[i] = 0;
            for (size_t j = 0; j < N; ++j) g[i] += (ld) A[i][j] * ((ld) x[j] - m[j]), H[i][j] = A[i][j];
            ld d = (ld) x[i] - m[i];
            switch (extra) {
                case 1: g[i] += k[i] * 0.3L * std::sinh(0.3L * d), H[i][i] += k[i] * 0.09L * std::cosh(0.3L * d); break;
                case 2: g[i] += k[i] * std::tanh(d), H[i][i] += k[i] / (std::cosh(d) * std::cosh(d)); break;
                case 3: g[i] += k[i] * d / std::sqrt(1 + d * d), H[i][i] += k[i] / powl(1 + d * d, 1.5L); break;
                case 4: g[i] += k[i] * 0.04L * d * d * d, H[i][i] += k[i] * 0.12L * d * d; break;
                default: break;
            }
        }
    }
};
template<size_t N>
static void convex(pbt::Src &s, pbt::Ctx &c) {
    Fun<N> f;
    double lam[N];
    std::array<std::array<double, N>, N> Q{};
    for (size_t i = 0; i < N; ++i) {
        lam[i] = s.chance(1, 3) ? 1 : s.real(0.3, 10);
        Q[i][i] = 1;
    }
    if (s.flag())
        for (size_t i = 0; i < N; ++i)
            for (size_t j = i + 1; j < N; ++j) {   // Givens rotations
                double t = s.real(0, 6.3), cs = std::cos(t), sn = std::sin(t);
                for (size_t r = 0; r < N; ++r) {
                    double a = Q[r][i], b = Q[r][j];
                    Q[r][i] = cs * a - sn * b, Q[r][j] = sn * a + cs * b;
                }
            }
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j) {
            double a = 0;
            for (size_t r = 0; r < N; ++r) a += Q[std::min(i, j)][r] * lam[r] * Q[std::max(i, j)][r];
            f.A[i][j] = a;
        }
    f.extra = (int) s.below(5);
    f.add = s.flag() ? 0 : s.coord(5);
    Vector<N> x0;
    double far = 0;
    for (size_t i = 0; i < N; ++i) {
        f.m[i] = s.coord(5);
        // terms whose curvature fades away from the minimiser are kept below the quadratic part: Newton steps alternate otherwise
        f.k[i] = (f.extra == 2 || f.extra == 3) ? s.unit() * *std::min_element(lam, lam + N) : s.real(0, 3);
        x0[i] = f.m[i] + s.coord(10);
        far = std::max(far, std::fabs(x0[i] - f.m[i]));
    }
    double tol = std::vector<double>{1e-5, 1e-3, 1e-6, 1e-8}[s.below(4)];
    if (N > 1 && far > 0.5) c.nontrivial();
    long calls = 0;
    std::function<double(const Vector<N> &)> g = [&](const Vector<N> &x) { ++calls; return f(x); };
    c.show([&](auto &o) {
        o << N << " variables, minimiser (";
        for (double x: f.m) o << x << " ";
        o << ") start (";
        for (double x: x0) o << x << " ";
        o << ") extra " << f.extra << " constant " << f.add << " tolerance " << tol << " matrix";
        for (auto &r: f.A) for (double x: r) o << " " << x;
    });
    // derivatives
    std::array<ld, N> eg{};
    std::array<std::array<ld, N>, N> eH{};
    f.exact(x0, eg, eH);
    double big = std::fabs(f(x0)) + 1;
    // the printed step sizes are 1e-7 and 1e-5: rounding of f over the step, plus truncation
    auto G = computeGradient<N>(g, x0);
    auto H = computeHessian<N>(g, x0);
    double th = 60 * big * 2.3e-16 / 1e-10 + 1e-5 * big;
    for (size_t i = 0; i < N; ++i) {
        PBT_CHECK(std::fabs(G[i] - (double) eg[i]) <= 20 * big * 2.3e-16 / 1e-7 + 1e-8 * (1 + std::fabs((double) eg[i])), "gradient ", i, " is ", G[i], ", expected ", (double) eg[i]);
        for (size_t j = 0; j < N; ++j) {
            PBT_CHECK(std::fabs(H[i][j] - (double) eH[i][j]) <= th, "Hessian (", i, ",", j, ") is ", H[i][j], ", expected ", (double) eH[i][j]);
            PBT_CHECK(H[i][j] == H[j][i], "Hessian is not symmetric");
        }
    }
    // other steps
    double h = std::vector<double>{1e-3, 1e-4}[s.below(2)];
    auto G2 = computeGradient<N>(g, x0, h);
    auto H2 = computeHessian<N>(g, x0, h);
    for (size_t i = 0; i < N; ++i) {
        PBT_CHECK(std::fabs(G2[i] - (double) eg[i]) <= 1e-9 * big / h * 1e-3 + h * h * (10 + big), "gradient ", i, " with step ", h, " is ", G2[i], ", expected ", (double) eg[i]);
        for (size_t j = 0; j < N; ++j) PBT_CHECK(std::fabs(H2[i][j] - (double) eH[i][j]) <= 60 * big * 2.3e-16 / (h * h) + h * h * (10 + big), "Hessian (", i, ",", j, ") with step ", h, " is ", H2[i][j], ", expected ", (double) eH[i][j]);
    }
    calls = 0;
    Quiet q;
    auto x = newtonsMethod<N>(g, x0, tol);
    PBT_CHECK(calls < 1000000, calls, " evaluations");
    PBT_CHECK(f(x) <= f(x0), "the value rises from ", f(x0), " to ", f(x));
    double off = 0, size = 1;
    for (size_t i = 0; i < N; ++i) off = std::max(off, std::fabs(x[i] - f.m[i])), size = std::max(size, std::fabs(x[i]));
    // resolution: step tolerance, noise of the numerical gradient, values that cannot be told apart
    double noise = (std::fabs(f.add) + 1e-3) * 2.3e-16 * 20 / 1e-7 / 0.3, flat = std::sqrt((std::fabs(f.add)) * 2.3e-16 * 8 / 0.3);
    PBT_CHECK(off <= 10 * (tol * size + noise) + 4 * flat, "ends ", off, " from the minimiser, tolerance ", tol);
    // a limit on the iterations is kept and never harmful
    int lim = (int) s.below(4);
    calls = 0;
    auto y = newtonsMethod<N>(g, x0, tol, lim);
    PBT_CHECK(f(y) <= f(x0), "the value rises with a limit of ", lim, " iterations");
    if (lim == 0) PBT_CHECK(y == x0, "moves without being allowed an iteration");
    c.label(f.extra ? "smooth convex" : "quadratic");
}
// convex functions with a line, a plane or more of minimisers: fewer squares than variables
template<size_t N>
static void wide_valley(pbt::Src &s, pbt::Ctx &c) {
    int rank = N == 1 ? 0 : 1 + (int) s.below(N - 1);
    std::vector<std::array<double, N>> a(rank);
    std::vector<double> b(rank);
    for (int k = 0; k < rank; ++k) {
        for (auto &x: a[k]) x = s.zint(3);
        a[k][s.below(N)] += 1;
    }
    Vector<N> x0, m;
    for (size_t i = 0; i < N; ++i) m[i] = s.zint(5), x0[i] = m[i] + s.zint(6);
    for (int k = 0; k < rank; ++k) { b[k] = 0; for (size_t i = 0; i < N; ++i) b[k] += a[k][i] * m[i]; }
    long calls = 0;
    std::function<double(const Vector<N> &)> f = [&](const Vector<N> &x) {
        if (++calls > 1000000) throw pbt::Failure{"more than a million evaluations"};
        double r = 0;
        for (int k = 0; k < rank; ++k) { double t = -b[k]; for (size_t i = 0; i < N; ++i) t += a[k][i] * x[i]; r += t * t; }
        return r;
    };
    c.show([&](auto &o) { o << "squares of"; for (auto &r: a) { o << " ("; for (double x: r) o << x << " "; o << ")"; } o << " from"; for (double x: x0) o << " " << x; });
    c.label("many minimisers");
    Quiet q;
    auto x = newtonsMethod<N>(f, x0, 1e-6);
    double f0 = f(x0), f1 = f(x);
    PBT_CHECK(f1 <= f0, "the value rises from ", f0, " to ", f1);
    PBT_CHECK(f1 <= 1e-6 * (1 + f0), "ends at the value ", f1, " from ", f0, ", the least is 0");
    if (f0 > 0) c.nontrivial();
}
template<size_t N>
static void rough(pbt::Src &s, pbt::Ctx &c) {
    int kind = (int) s.below(9);
    double a = s.coord(3), b = s.coord(3);
    uint64_t salt = s.below(1000);
    long calls = 0;
    Vector<N> x0;
    for (auto &x: x0) x = s.chance(1, 12) ? std::vector<double>{1e200, NAN, INFINITY}[s.below(3)] : s.coord(5);
    std::function<double(const Vector<N> &)> f = [&](const Vector<N> &x) -> double {
        if (++calls > 1000000) throw pbt::Failure{"more than a million evaluations"};
        double r = 0, p = 0;
        for (size_t i = 0; i < N; ++i) r += (x[i] - a) * (x[i] - a), p += (i + 1) * x[i];
        switch (kind) {
            case 0: return std::nan("");
            case 1: return p > b ? std::nan("") : r;
            case 2: return p > b ? INFINITY : r;
            case 3: return b;                              // flat
            case 4: return p * b;                          // unbounded below
            case 5: return -r;                             // concave
            case 6: return std::sin(3 * p) + 0.05 * r;     // many minima
            case 7: { uint64_t h = salt; for (double v: x) { uint64_t u; memcpy(&u, &v, 8); h = pbt::mix(h ^ u); } return (double) (h % 1000) / 100; }
            default: return std::sqrt(r) + std::floor(std::fabs(p));  // kinks and steps
        }
    };
    c.show([&](auto &o) { o << "rough " << kind << " with " << a << " " << b << " salt " << salt << " from"; for (double x: x0) o << " " << x; });
    c.label("rough");
    Quiet q;
    auto x = newtonsMethod<N>(f, x0);
    double f0 = f(x0), f1 = f(x);
    PBT_CHECK(!(f1 > f0), "the value rises from ", f0, " to ", f1);
}
void property(pbt::Src &s, pbt::Ctx &c) {
    int n = (int) s.below(4);
    if (s.chance(1, 10)) return n == 0 ? wide_valley<1>(s, c) : n == 1 ? wide_valley<2>(s, c) : n == 2 ? wide_valley<3>(s, c) : wide_valley<4>(s, c);
    if (s.chance(1, 4)) return n == 0 ? rough<1>(s, c) : n == 1 ? rough<2>(s, c) : n == 2 ? rough<3>(s, c) : rough<4>(s, c);
    return n == 0 ? convex<1>(s, c) : n == 1 ? convex<2>(s, c) : n == 2 ? convex<3>(s, c) : convex<4>(s, c);
}
