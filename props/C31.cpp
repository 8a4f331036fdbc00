#include "pbt.h"
#include "cmmcore/vec.h"
#include "cmmcore/matrix.h"
#include "cmmcore/utils.h"
#include <iostream>
#include "cmmcore/newthon2.h"
using namespace cmmcore;
using ld = long double;
const pbt::Spec SPEC = {"C31",
    "matrices of 1 to 6 rows and columns with small integer, dyadic or real entries, optionally scaled as a whole by a power of two between 2^-40 and 2^40, or of up to 17 rows with small pivots (Bernstein, Pascal, triangular, graded by powers of two), or singular by construction (an integer combination of rows or columns repeated), 2x2 matrices through every constructor; sums and products are compared with long double references entry by entry, inverses with the identity up to the condition number, systems (general 2x2 and symmetric ones of up to 4 unknowns by Cholesky) by substitution, integer singularity is decided exactly. "
    "non-trivial: a matrix of at least 2 rows that is not diagonal",
    1600000, 16000000, 8};
using M = std::vector<std::vector<double>>;

static std::ostream &show(std::ostream &o, const M &m) {
    o << "[";
    for (auto &r: m) { o << "["; for (double x: r) o << x << " "; o << "]"; }
    return o << "]";
}
static M gen_m(pbt::Src &s, int r, int c, int kind) {
    M m(r, std::vector<double>(c));
    for (auto &row: m) for (double &x: row) x = kind == 0 ? s.zint(3) : kind == 1 ? s.zint(40) / 8.0 : s.coord(10);
    return m;
}
static MatrixD to(const M &m) {
    MatrixD d(m.size(), m[0].size());
    for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[0].size(); ++j) d(i, j) = m[i][j];
    return d;
}
// exact determinant of an integer-valued matrix (Bareiss)
static long long idet(const M &m) {
    int n = (int) m.size();
    std::vector<std::vector<__int128>> a(n, std::vector<__int128>(n));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = (long long) m[i][j];
    __int128 prev = 1;
    int sign = 1;
    for (int k = 0; k + 1 < n; ++k) {
        int p = k;
        while (p < n && a[p][k] == 0) ++p;
        if (p == n) return 0;
        if (p != k) std::swap(a[p], a[k]), sign = -sign;
        for (int i = k + 1; i < n; ++i)
            for (int j = k + 1; j < n; ++j) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
        prev = a[k][k];
    }
    return (long long) (sign * a[n - 1][n - 1]);
}
// long double inverse with full pivoting; returns the largest entry of the inverse, or -1
static ld inverse_norm(const M &m) {
    int n = (int) m.size();
    std::vector<std::vector<ld>> a(n, std::vector<ld>(2 * n, 0));
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) a[i][j] = m[i][j];
        a[i][n + i] = 1;
    }
    for (int k = 0; k < n; ++k) {
        int p = k;
        for (int i = k; i < n; ++i) if (fabsl(a[i][k]) > fabsl(a[p][k])) p = i;
        if (a[p][k] == 0) return -1;
        std::swap(a[p], a[k]);
        ld d = a[k][k];
        for (auto &x: a[k]) x /= d;
        for (int i = 0; i < n; ++i) {
            if (i == k) continue;
            ld f = a[i][k];
            for (int j = 0; j < 2 * n; ++j) a[i][j] -= f * a[k][j];
        }
    }
    ld r = 0;
    for (int i = 0; i < n; ++i) for (int j = n; j < 2 * n; ++j) r = std::max(r, fabsl(a[i][j]));
    return r;
}
static double maxabs(const M &m) {
    double r = 0;
    for (auto &row: m) for (double x: row) r = std::max(r, std::fabs(x));
    return r;
}
// symmetric systems by Cholesky: G = B B^T is positive definite or semidefinite; minus a multiple of the identity it is indefinite
template<size_t N>
static void cholesky(pbt::Src &s, pbt::Ctx &c) {
    int k = s.chance(1, 4) && N > 1 ? (int) N - 1 : (int) N + 1;   // rank deficient or (nearly always) regular
    M b = gen_m(s, N, k, 0);
    MatrixSq<N> H{}, L{};
    M h(N, std::vector<double>(N));
    double sc = std::ldexp(1.0, 2 * s.range(-20, 20));
    int shift = s.chance(1, 5) ? -(1 + (int) s.below(3)) : 0;
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j) {
            double x = i == j ? shift : 0;
            for (int l = 0; l < k; ++l) x += b[i][l] * b[j][l];
            H[i][j] = x * sc;
            h[i][j] = x;
        }
    Vector<N> v, x{};
    for (auto &t: v) t = s.coord(10);
    c.show([&](auto &o) { o << "symmetric "; show(o, h); o << " scale " << sc; });
    if (N > 1) c.nontrivial();
    // definite iff all leading minors are positive
    bool pd = true, semi = false;
    for (size_t m = 1; m <= N && pd; ++m) {
        M q(m, std::vector<double>(m));
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) q[i][j] = h[i][j];
        long long d = idet(q);
        if (d == 0) semi = true;
        if (d <= 0) pd = false;
    }
    bool ok = solveLinearSystem<N>(H, v, x);
    c.label(pd ? "positive definite" : semi ? "semidefinite" : "indefinite");
    if (!pd) {
        if (!semi) PBT_CHECK(!ok, "a system that is not positive definite is reported as solved");
        return;   // a zero pivot can come out as rounding noise of either sign
    }
    ld cond = inverse_norm(h) * maxabs(h) * N;
    if (cond > 1e10L) return;
    PBT_CHECK(ok, "a positive definite system of condition ", (double) cond, " is refused");
    ld xm = 0, hm = maxabs(h) * sc;
    for (double t: x) xm = std::max(xm, fabsl((ld) t));
    for (size_t i = 0; i < N; ++i) {
        ld r = -v[i];
        for (size_t j = 0; j < N; ++j) r += (ld) H[i][j] * x[j];
        PBT_CHECK(fabsl(r) <= 1e-14L * N * N * hm * xm, "the solution misses equation ", i, " by ", (double) r);
    }
    PBT_CHECK(choleskyDecomposition<N>(H, L), "no decomposition");
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j) {
            ld r = 0;
            for (size_t l = 0; l < N; ++l) r += (ld) L[i][l] * L[j][l];
            PBT_CHECK(fabsl(r - H[i][j]) <= 1e-14L * hm * N, "the factors do not give (", i, ",", j, ")");
            if (j > i) PBT_CHECK(L[i][j] == 0, "the factor is not lower triangular");
        }
    Vector<N> y{}, z{};
    forwardSubstitution<N>(L, v, y);
    backwardSubstitution<N>(L, y, z);
    for (size_t i = 0; i < N; ++i) PBT_CHECK(std::fabs(z[i] - x[i]) <= 1e-9 * (double) xm, "substitution and solution differ");
}
static void two_by_two(pbt::Src &s, pbt::Ctx &c) {
    int kind = (int) s.below(3);
    M m = gen_m(s, 2, 2, kind), q = gen_m(s, 2, 2, kind);
    if (s.chance(1, 4)) { int k = s.zint(3); m[1] = {m[0][0] * k, m[0][1] * k}; c.label("singular 2x2"); }
    double k = std::ldexp(1.0, s.chance(1, 3) ? s.range(-40, 40) : 0);
    for (auto &r: m) for (double &x: r) x *= k;
    c.show([&](auto &o) { o << "2x2 "; show(o, m); o << " "; show(o, q); });
    if (m[0][1] != 0 || m[1][0] != 0) c.nontrivial();
    std::array<double, 2> r0{m[0][0], m[0][1]}, r1{m[1][0], m[1][1]};
    Matrix2x2 A(m[0][0], m[0][1], m[1][0], m[1][1]), A2(r0, r1), A3{{m[0][0], m[0][1]}, {m[1][0], m[1][1]}}, A4(A), Q(q[0][0], q[0][1], q[1][0], q[1][1]), Z;
    const Matrix2x2 &cA = A;
    Matrix2x2 I = Matrix2x2::eye(), D = Matrix2x2::fromDiag({m[0][0], m[1][1]}), T = A.transpose();
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) {
            PBT_CHECK(A[i][j] == m[i][j] && cA[i][j] == m[i][j] && A4[i][j] == m[i][j], "element (", i, ",", j, ") of the matrix of four numbers");
            PBT_CHECK(A2[i][j] == m[i][j], "element (", i, ",", j, ") of the matrix of two rows");
            PBT_CHECK(A3[i][j] == m[i][j], "element (", i, ",", j, ") of the matrix of a nested list is ", A3[i][j], ", expected ", m[i][j]);
            PBT_CHECK(Z[i][j] == 0 && I[i][j] == (i == j) && D[i][j] == (i == j ? m[i][j] : 0), "zero, identity or diagonal matrix");
            PBT_CHECK(T[i][j] == m[j][i], "transpose (", i, ",", j, ")");
        }
    Matrix2x2 P = A * Q;
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) {
            ld w = 0, g = 0;
            for (int l = 0; l < 2; ++l) w += (ld) m[i][l] * q[l][j], g += fabsl((ld) m[i][l] * q[l][j]);
            PBT_CHECK(fabsl(P[i][j] - w) <= 1e-15L * g, "product (", i, ",", j, ") is ", P[i][j], ", expected ", (double) w);
        }
    ld dw = (ld) m[0][0] * m[1][1] - (ld) m[0][1] * m[1][0], dg = fabsl((ld) m[0][0] * m[1][1]) + fabsl((ld) m[0][1] * m[1][0]);
    PBT_CHECK(fabsl(A.det() - dw) <= 1e-15L * dg, "determinant is ", A.det(), ", expected ", (double) dw);
    std::array<double, 2> v{s.coord(10), s.coord(10)}, x{777, 777};
    auto Av = A * v;
    for (int i = 0; i < 2; ++i) {
        ld w = (ld) m[i][0] * v[0] + (ld) m[i][1] * v[1], g = fabsl((ld) m[i][0] * v[0]) + fabsl((ld) m[i][1] * v[1]);
        PBT_CHECK(fabsl(Av[i] - w) <= 1e-15L * g, "matrix times vector, component ", i);
    }
    bool ok = solve2x2(A, v, x), threw = false;
    if (s.chance(1, 16)) {
        int bad = 0;
        try { Matrix2x2 W{{m[0][0], m[0][1]}}; } catch (const std::exception &) { bad++; }
        try { Matrix2x2 W{{m[0][0], m[0][1]}, {m[1][0], m[1][1]}, {1., 2.}}; } catch (const std::exception &) { bad++; }
        try { Matrix2x2 W{{m[0][0], m[0][1]}, {m[1][0], m[1][1], 3.}}; } catch (const std::exception &) { bad++; }
        try { Matrix2x2 W{{m[0][0]}, {m[1][0], m[1][1]}}; } catch (const std::exception &) { bad++; }
        PBT_CHECK(bad == 4, "a table of another shape is taken for a two by two matrix");
    }
    Matrix2x2 B;
    try { B = A.inverse(); } catch (const std::runtime_error &) { threw = true; }
    if (kind < 2) {   // the determinant is computed exactly here
        PBT_CHECK(ok == (dw != 0), "a system with determinant ", (double) dw, " is reported as ", ok ? "solved" : "singular");
        PBT_CHECK(threw == (dw == 0), "the inverse of a matrix with determinant ", (double) dw, threw ? " is refused" : " is given");
    } else if (fabsl(dw) > 1e-12L * dg) PBT_CHECK(ok && !threw, "a regular matrix is reported as singular");
    if (dw == 0 || fabsl(dw) < 1e-12L * dg) return;
    // Cramer's rule: error of x is of order eps * |terms| / |det|, substitute back with that much slack
    ld cond = dg / fabsl(dw), am = maxabs(m);
    for (int i = 0; i < 2; ++i) {
        ld res = (ld) m[i][0] * x[0] + (ld) m[i][1] * x[1] - v[i];
        ld tol = 1e-14L * cond * (am * (fabsl((ld) x[0]) + fabsl((ld) x[1])) + fabsl((ld) v[0]) + fabsl((ld) v[1])) ;
        // the two unknowns are computed separately: their own errors are eps*(|a b|terms)/|det|
        tol += 1e-14L * am * am * (fabsl((ld) v[0]) + fabsl((ld) v[1])) / fabsl(dw);
        PBT_CHECK(fabsl(res) <= tol, "the solution (", x[0], ",", x[1], ") misses equation ", i, " by ", (double) res);
        for (int j = 0; j < 2; ++j) {
            ld w = (ld) m[i][0] * B[0][j] + (ld) m[i][1] * B[1][j] - (i == j);
            PBT_CHECK(fabsl(w) <= 1e-14L * cond + 1e-14L * am * am / fabsl(dw), "matrix times inverse is off by ", (double) w, " at (", i, ",", j, ")");
        }
    }
}
void property(pbt::Src &s, pbt::Ctx &c) {
    if (s.chance(1, 3)) return two_by_two(s, c);
    if (s.chance(1, 4)) {
        switch (s.below(4)) {
            case 0: return cholesky<1>(s, c);
            case 1: return cholesky<2>(s, c);
            case 2: return cholesky<3>(s, c);
            default: return cholesky<4>(s, c);
        }
    }
    int kind = (int) s.below(3), n = 1 + (int) s.below(6), m = 1 + (int) s.below(6), l = 1 + (int) s.below(6), k = 1 + (int) s.below(6);
    if (s.flag()) {   // products, transposes, columns
        M a = gen_m(s, n, m, kind), b = gen_m(s, m, l, kind), d = gen_m(s, l, k, kind);
        c.show([&](auto &o) { o << "a "; show(o, a); o << " b "; show(o, b); });
        if (n > 1 && m > 1) c.nontrivial();
        MatrixD A = to(a), B = to(b), D = to(d), P = A * B;
        PBT_CHECK(P.getRows() == (size_t) n && P.getCols() == (size_t) l && P.data.size() == (size_t) n * l, "product of ", n, "x", m, " and ", m, "x", l, " has ", P.getRows(), "x", P.getCols());
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < l; ++j) {
                ld w = 0, g = 0;
                for (int q = 0; q < m; ++q) w += (ld) a[i][q] * b[q][j], g += fabsl((ld) a[i][q] * b[q][j]);
                PBT_CHECK(fabsl(P(i, j) - w) <= 2e-15L * g, "product (", i, ",", j, ") is ", P(i, j), ", expected ", (double) w);
            }
        MatrixD T = A.transpose(), L = P * D, R = A * (B * D), TP = P.transpose(), TT = B.transpose() * T;
        PBT_CHECK(T.getRows() == (size_t) m && T.getCols() == (size_t) n, "dimensions of the transpose");
        for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) PBT_CHECK(T(j, i) == a[i][j], "transpose (", j, ",", i, ")");
        double g = 1e-13 * maxabs(a) * maxabs(b) * (1 + maxabs(d)) * m * l;
        PBT_CHECK(L.data.size() == R.data.size() && TP.data.size() == TT.data.size() && TP.getRows() == TT.getRows(), "dimensions");
        for (size_t i = 0; i < L.data.size(); ++i) PBT_CHECK(std::fabs(L.data[i] - R.data[i]) <= g, "product is not associative");
        for (size_t i = 0; i < TP.data.size(); ++i) PBT_CHECK(std::fabs(TP.data[i] - TT.data[i]) <= g, "the transpose does not reverse the product");
        if (m != k) {
            bool threw = false;
            MatrixD X(k, 2);
            try { (void) (A * X); } catch (const std::runtime_error &) { threw = true; }
            PBT_CHECK(threw, "product of ", n, "x", m, " and ", k, "x2 is not rejected");
        }
        std::vector<double> col(s.below(9), 5.0);
        int j = (int) s.below(m + 1);
        bool threw = false;
        try { vectorColumn(a, j, col); } catch (const std::out_of_range &) { threw = true; }
        PBT_CHECK(threw == (j == m), "column ", j, " of ", m);
        if (!threw) {
            PBT_CHECK(col.size() == (size_t) n, "a column of a matrix with ", n, " rows has ", col.size(), " elements");
            for (int i = 0; i < n; ++i) PBT_CHECK(col[i] == a[i][j], "column ", j, " element ", i);
        }
        return;
    }
    bool structured = s.chance(1, 5);
    M a;
    if (structured) {   // regular, but with small pivots or entries of very unequal size
        int which = (int) s.below(4);
        n = 2 + (int) s.below(which == 0 ? 16 : 8);
        kind = 1;
        a.assign(n, std::vector<double>(n, 0));
        std::vector<std::vector<double>> bin(2 * n, std::vector<double>(2 * n, 0));
        for (int i = 0; i < 2 * n; ++i) for (int j = 0; j <= i; ++j) bin[i][j] = j == 0 || j == i ? 1 : bin[i - 1][j - 1] + bin[i - 1][j];
        c.label(which == 0 ? "Bernstein" : which == 1 ? "Pascal" : which == 2 ? "unit triangular" : "graded");
        if (which == 3) a = gen_m(s, n, n, (int) s.below(2));
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                if (which == 0) a[i][j] = j > i ? 0 : bin[n - 1][i] * bin[i][j] * ((i - j) % 2 ? -1 : 1);
                else if (which == 1) a[i][j] = bin[i + j][i];
                else if (which == 2) a[i][j] = i == j ? 1 : j < i ? s.zint(3) : 0;
        if (which == 3 || s.chance(1, 4))
            for (int i = 0; i < n; ++i) {
                double f = std::ldexp(1.0, s.range(-8, 8));
                bool col = s.chance(1, 3);
                for (int j = 0; j < n; ++j) (col ? a[j][i] : a[i][j]) *= f;
            }
        if (s.flag()) { int i = (int) s.below(n), j = (int) s.below(n); std::swap(a[i], a[j]); }
    } else a = gen_m(s, n, n, kind);
    bool singular = kind == 0 && s.chance(1, 4);
    if (singular && n > 1) {   // one row or column becomes a combination of others
        int r = (int) s.below(n), p = (r + 1) % n, q = (int) s.below(n), u = s.zint(2), v = q == r ? 0 : s.zint(2);
        bool rows = s.flag();
        for (int j = 0; j < n; ++j) (rows ? a[r][j] : a[j][r]) = u * (rows ? a[p][j] : a[j][p]) + v * (rows ? a[q][j] : a[j][q]);
    }
    long long det = kind == 0 ? idet(a) : 1;
    double sc = std::ldexp(1.0, s.flag() ? s.range(-40, 40) : 0);
    for (auto &r: a) for (double &x: r) x *= sc;
    c.show([&](auto &o) { o << "square "; show(o, a); o << " scale " << sc; });
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && a[i][j] != 0) c.nontrivial();
    MatrixD A = to(a), I;
    bool threw = false;
    try { I = A.inverse(); } catch (const std::runtime_error &) { threw = true; }
    if (det == 0) {
        c.label("singular");
        PBT_CHECK(threw, "the inverse of a singular matrix is given");
        return;
    }
    ld in = inverse_norm(a), cond = in < 0 ? 1e300L : in * maxabs(a) * n;
    if (cond > 1e11L) return;
    c.label(cond > 1e4L ? "condition above 1e4" : "well conditioned");
    PBT_CHECK(!threw, "a regular matrix of condition ", (double) cond, " is reported as singular");
    PBT_CHECK(I.getRows() == (size_t) n && I.getCols() == (size_t) n, "dimensions of the inverse");
    MatrixD P = A * I, Q = I * A;
    ld tol = 1e-14L * cond * n * n;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            PBT_CHECK(fabsl(P(i, j) - (i == j)) <= tol && fabsl(Q(i, j) - (i == j)) <= tol * cond, "matrix times inverse at (", i, ",", j, ") is ", P(i, j), ", inverse times matrix ", Q(i, j), ", condition ", (double) cond);
            PBT_CHECK(A(i, j) == a[i][j], "inverse changes the matrix");
        }
    if (n != m) {
        bool t = false;
        try { (void) to(gen_m(s, n, m, 0)).inverse(); } catch (const std::runtime_error &) { t = true; }
        PBT_CHECK(t, "the inverse of a ", n, "x", m, " matrix is not rejected");
    }
}
