// Independent reference for B-splines (long double, de Boor's triangle on homogeneous points) and generators.
#pragma once
#include "pbt.h"

namespace ref {
using ld = long double;
using P4 = std::array<ld, 4>;
using P3 = std::array<ld, 3>;

inline P4 lerp(const P4 &a, const P4 &b, ld t) {
    P4 r;
    for (int k = 0; k < 4; ++k) r[k] = a[k] * (1 - t) + b[k] * t;
    return r;
}

struct Curve {
    int p = 1;
    std::vector<ld> U;
    std::vector<P4> P;  // homogeneous: (w x, w y, w z, w)

    ld lo() const { return U[p]; }
    ld hi() const { return U[P.size()]; }
    // the non-empty span containing u; at a knot the span to its right (from_left: to its left)
    int span(ld u, bool from_left = false) const {
        int n = (int) P.size();
        int best = -1;
        for (int i = p; i < n; ++i) {
            if (!(U[i] < U[i + 1])) continue;
            if (best < 0) best = i;
            if (from_left ? (U[i] < u) : (U[i] <= u)) best = i;
        }
        return best;
    }
    P4 eval4(ld u, bool from_left = false) const {
        int k = span(u, from_left);
        std::vector<P4> d(P.begin() + (k - p), P.begin() + (k + 1));
        for (int r = 1; r <= p; ++r)
            for (int j = p; j >= r; --j) {
                ld a = U[j + k - p], b = U[j + 1 + k - r];
                ld t = (u - a) / (b - a);
                d[j] = lerp(d[j - 1], d[j], t);
            }
        return d[p];
    }
    P3 eval(ld u, bool fl = false) const {
        P4 h = eval4(u, fl);
        return {h[0] / h[3], h[1] / h[3], h[2] / h[3]};
    }
    Curve deriv() const {  // derivative of the homogeneous curve
        Curve c;
        c.p = p - 1;
        c.U.assign(U.begin() + 1, U.end() - 1);
        for (size_t i = 0; i + 1 < P.size(); ++i) {
            ld den = U[i + p + 1] - U[i + 1];
            P4 q{0, 0, 0, 0};
            if (den != 0) for (int k = 0; k < 4; ++k) q[k] = p * (P[i + 1][k] - P[i][k]) / den;
            c.P.push_back(q);
        }
        return c;
    }
    // derivatives 0..n of the projected curve (quotient rule), at the span containing u
    std::vector<P3> ders(ld u, int n, bool fl = false) const {
        std::vector<P4> A;
        Curve c = *this;
        for (int k = 0; k <= n; ++k) {
            if (k > p) {
                A.push_back({0, 0, 0, 0});
                continue;
            }
            A.push_back(c.eval4(u, fl));
            if (k < p) c = c.deriv();
        }
        std::vector<P3> C;
        for (int k = 0; k <= n; ++k) {
            P3 v{A[k][0], A[k][1], A[k][2]};
            ld b = 1;
            for (int i = 1; i <= k; ++i) {
                b = b * (k - i + 1) / i;
                for (int d = 0; d < 3; ++d) v[d] -= b * A[i][3] * C[k - i][d];
            }
            for (int d = 0; d < 3; ++d) v[d] /= A[0][3];
            C.push_back(v);
        }
        return C;
    }
};

struct Surface {
    int p = 1, q = 1;
    std::vector<ld> U, V;
    std::vector<std::vector<P4>> P;  // [u][v]
    Curve row_curve_u(ld v, bool fl = false) const {  // curve in u at fixed v
        Curve c;
        c.p = p;
        c.U = U;
        for (auto &r: P) {
            Curve t;
            t.p = q;
            t.U = V;
            t.P = r;
            c.P.push_back(t.eval4(v, fl));
        }
        return c;
    }
    Curve row_curve_v(ld u, bool fl = false) const {
        Curve c;
        c.p = q;
        c.U = V;
        for (size_t j = 0; j < P[0].size(); ++j) {
            Curve t;
            t.p = p;
            t.U = U;
            for (auto &r: P) t.P.push_back(r[j]);
            c.P.push_back(t.eval4(u, fl));
        }
        return c;
    }
    P3 eval(ld u, ld v) const { return row_curve_u(v).eval(u); }
    P3 du(ld u, ld v) const { return row_curve_u(v).ders(u, 1)[1]; }
    P3 dv(ld u, ld v) const { return row_curve_v(u).ders(v, 1)[1]; }
};

inline ld dist(const P3 &a, const P3 &b) {
    return sqrtl((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]));
}
inline ld norm(const P3 &a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
inline P3 cross(const P3 &a, const P3 &b) {
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
inline ld dot(const P3 &a, const P3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline P3 sub(const P3 &a, const P3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline P3 add(const P3 &a, const P3 &b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline P3 mul(const P3 &a, ld s) { return {a[0] * s, a[1] * s, a[2] * s}; }
}  // namespace ref

// ------------------------------------------------------------------ generators (independent of cmmcore)
namespace gen {
struct Knots {
    std::vector<double> k;
    bool custom = false;
    bool multi = false;
};
// clamped knot vector for n control points of degree p. kind 0: 0,1,2,... ; otherwise random spacing,
// multiplicities up to max_mult and an arbitrary start.
inline Knots knots(pbt::Src &s, int n, int p, int max_mult = 99, double factor = 1, double close = 1) {
    Knots r;
    if (max_mult > p) max_mult = p;
    int interior = n - p - 1;
    if (factor == 1 && close == 1 && !s.chance(2, 3)) {
        for (int i = 0; i <= p; ++i) r.k.push_back(0);
        for (int i = 1; i <= interior; ++i) r.k.push_back(i);
        for (int i = 0; i <= p; ++i) r.k.push_back(interior + 1);
        return r;
    }
    r.custom = true;
    double start = factor * (s.chance(1, 2) ? s.zint(40) / 8.0 : 0.0);
    double scale = factor * std::vector<double>{1, 0.25, 3, 0.1, 10}[s.below(5)];
    double cur = start;
    auto step = [&]() {
        double by = close != 1 && s.chance(1, 3) ? close : 1;   // different knots close to each other
        switch (s.below(3)) {
            case 0: return by;
            case 1: return by * 0.125 * (1 + (double) s.below(16));
            default: return by * (0.1 + 1.9 * s.unit());
        }
    };
    for (int i = 0; i <= p; ++i) r.k.push_back(cur);
    int left = interior;
    while (left > 0) {
        cur += scale * step();
        int m = 1;
        if (s.chance(1, 3)) m = 1 + (int) s.below(std::min(left, max_mult));
        if (m > 1) r.multi = true;
        for (int i = 0; i < m; ++i) r.k.push_back(cur);
        left -= m;
    }
    cur += scale * step();
    for (int i = 0; i <= p; ++i) r.k.push_back(cur);
    return r;
}
// distinct knots of a clamped vector
inline std::vector<double> distinct(const std::vector<double> &k) {
    std::vector<double> d;
    for (double x: k) if (d.empty() || x != d.back()) d.push_back(x);
    return d;
}
// a parameter of the domain: a knot, an end, a point just beside a knot, or anything between
inline double param(pbt::Src &s, const std::vector<double> &k) {
    double a = k.front(), b = k.back();
    switch (s.below(5)) {
        case 0: return s.of(distinct(k));
        case 1: return s.flag() ? b : a;
        case 2: {
            auto d = distinct(k);
            size_t i = s.below(d.size() - 1);
            return d[i] + (d[i + 1] - d[i]) * 0.5;
        }
        default: {
            double t = a + (b - a) * s.unit();
            return std::min(std::max(t, a), b);
        }
    }
}
// parameter strictly inside a span, away from its knots by a relative margin
inline double inside(pbt::Src &s, const std::vector<double> &k, double margin = 0.02) {
    auto d = distinct(k);
    size_t i = s.below(d.size() - 1);
    return d[i] + (d[i + 1] - d[i]) * (margin + (1 - 2 * margin) * s.unit());
}
// a neighbour of an interior knot in the last place or two (what rounded midpoints produce)
inline double beside(pbt::Src &s, double k) {
    int n = 1 + (int) s.below(3);
    bool up = s.flag();
    for (int i = 0; i < n; ++i) k = std::nextafter(k, up ? 1e300 : -1e300);
    return k;
}
inline double weight(pbt::Src &s) {
    switch (s.below(3)) {
        case 0: return 1.0;
        case 1: return std::vector<double>{1, 2, 0.5, 4, 0.25}[s.below(5)];
        default: return 0.25 + 3.75 * s.unit();
    }
}
// what is rare: many control points, very small or large coordinates, uneven weights, very short or long domains
struct Wide {
    int more = 0;
    double size = 1, weights = 1, domain = 1, close = 1;
    Wide(pbt::Src &s, bool allowed, int longest) {
        if (!allowed || !s.chance(1, 12)) return;
        switch (s.below(6)) {
            case 0: more = (int) s.below(s.chance(1, 20) ? 6 * longest : longest); break;
            case 1: size = s.flag() ? 1e5 : 1e-3; break;
            case 2: weights = 25; break;
            case 3: domain = s.flag() ? 6 : 1e-3; break;   // (parameters are told apart at 1e-12)
            case 4: close = s.flag() ? 1e-3 : 1e-4; break;
            default: more = (int) s.below(longest), size = s.flag() ? 1e3 : 0.03, weights = s.flag() ? 5 : 1, domain = s.flag() ? 0.03 : 1;
        }
    }
};
// homogeneous control points, coordinates of magnitude <= m
inline std::vector<std::array<double, 4>> points(pbt::Src &s, int n, double m, bool rational, double uneven = 1) {
    std::vector<std::array<double, 4>> r;
    for (int i = 0; i < n; ++i) {
        double x = s.coord(m), y = s.coord(m), z = s.coord(m);
        double w = rational ? weight(s) : 1.0;
        if (rational && uneven != 1) w *= s.flag() ? uneven : s.flag() ? 1 / uneven : 1;
        r.push_back({x * w, y * w, z * w, w});
    }
    return r;
}
struct CurveData {
    int p;
    std::vector<double> U;
    std::vector<std::array<double, 4>> P;
    bool rational = false, custom = false, multi = false;
    double scale() const {  // magnitude of the projected geometry
        double s = 1e-3;
        for (auto &q: P) for (int k = 0; k < 3; ++k) s = std::max(s, std::fabs(q[k] / q[3]));
        return s;
    }
    ref::Curve ref() const {
        ref::Curve c;
        c.p = p;
        for (double u: U) c.U.push_back(u);
        for (auto &q: P) c.P.push_back({q[0], q[1], q[2], q[3]});
        return c;
    }
};
struct CurveOpt {
    int pmin = 1, pmax = 8, extra = 8;
    int max_mult = 99;
    bool allow_rational = true;
    double mag = 100;
    bool wide = true;
};
inline CurveData curve(pbt::Src &s, const CurveOpt &o = {}) {
    CurveData c;
    c.p = s.range(o.pmin, o.pmax);
    Wide w(s, o.wide, 50);
    int n = c.p + 1 + (int) s.below(o.extra + 1) + w.more;
    c.rational = o.allow_rational && s.chance(1, 2);
    auto k = knots(s, n, c.p, o.max_mult, w.domain, w.close);
    c.U = k.k;
    c.custom = k.custom;
    c.multi = k.multi;
    double m = std::vector<double>{1, 10, o.mag}[s.below(3)];
    c.P = points(s, n, std::min(m, o.mag) * w.size, c.rational, w.weights);
    return c;
}
struct SurfData {
    int p, q;
    std::vector<double> U, V;
    std::vector<std::vector<std::array<double, 4>>> P;
    bool rational = false, custom = false, multi = false;
    double scale() const {
        double s = 1e-3;
        for (auto &r: P) for (auto &c: r) for (int k = 0; k < 3; ++k) s = std::max(s, std::fabs(c[k] / c[3]));
        return s;
    }
    ref::Surface ref() const {
        ref::Surface r;
        r.p = p;
        r.q = q;
        for (double u: U) r.U.push_back(u);
        for (double v: V) r.V.push_back(v);
        for (auto &row: P) {
            r.P.emplace_back();
            for (auto &c: row) r.P.back().push_back({c[0], c[1], c[2], c[3]});
        }
        return r;
    }
};
struct SurfOpt {
    int pmin = 1, pmax = 8, extra = 4;
    int max_mult = 99;
    bool allow_rational = true;
    double mag = 100;
    bool wide = true;
};
inline SurfData surface(pbt::Src &s, const SurfOpt &o = {}) {
    SurfData c;
    // small degrees are much cheaper and just as telling: large ones are rarer
    auto deg = [&]() { return s.chance(1, 5) ? s.range(o.pmin, o.pmax) : s.range(o.pmin, std::min(o.pmax, 3)); };
    c.p = deg();
    c.q = deg();
    Wide w(s, o.wide, 18);
    bool which = w.more && s.flag();
    int n = c.p + 1 + (int) s.below(o.extra + 1) + (which ? 0 : w.more), m = c.q + 1 + (int) s.below(o.extra + 1) + (which ? w.more : 0);
    c.rational = o.allow_rational && s.chance(1, 2);
    auto ku = knots(s, n, c.p, o.max_mult, w.domain, w.close), kv = knots(s, m, c.q, o.max_mult, w.domain, w.close);
    c.U = ku.k;
    c.V = kv.k;
    c.custom = ku.custom || kv.custom;
    c.multi = ku.multi || kv.multi;
    double mag = std::min(o.mag, std::vector<double>{1, 10, o.mag}[s.below(3)]);
    for (int i = 0; i < n; ++i) c.P.push_back(points(s, m, mag * w.size, c.rational, w.weights));
    return c;
}
inline std::ostream &operator<<(std::ostream &o, const CurveData &c) {
    o << "curve degree " << c.p << " knots [";
    for (double u: c.U) o << u << " ";
    o << "] control points (homogeneous) [";
    for (auto &q: c.P) o << "(" << q[0] << "," << q[1] << "," << q[2] << "," << q[3] << ") ";
    return o << "]";
}
inline std::ostream &operator<<(std::ostream &o, const SurfData &c) {
    o << "surface degrees " << c.p << "," << c.q << " knots u [";
    for (double u: c.U) o << u << " ";
    o << "] v [";
    for (double u: c.V) o << u << " ";
    o << "] control points (homogeneous) [";
    for (auto &r: c.P) {
        o << "[";
        for (auto &q: r) o << "(" << q[0] << "," << q[1] << "," << q[2] << "," << q[3] << ") ";
        o << "] ";
    }
    return o << "]";
}
}  // namespace gen
