// Scenes for intersection checks: well-shaped patches (a deformed grid, arbitrarily oriented) and helpers.
#pragma once
#include "geo.h"
#include "nurbs_glue.h"

namespace scene {
using ref::P3;
using ref::ld;

// a proper rotation from three angles (identity is the simplest)
struct Rot {
    double m[3][3];
};
inline Rot rotation(pbt::Src &s) {
    Rot r{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
    switch (s.below(3)) {
        case 0: return r;
        case 1: {  // a permutation of the axes
            int k = (int) s.below(3);
            Rot q{};
            for (int i = 0; i < 3; ++i) q.m[i][(i + k) % 3] = 1;
            return q;
        }
        default: {
            double a = s.real(0, 6.28), b = s.real(0, 3.14), c = s.real(0, 6.28);
            double ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b), cc = cos(c), sc = sin(c);
            return Rot{{{ca * cc - sa * cb * sc, -ca * sc - sa * cb * cc, sa * sb}, {sa * cc + ca * cb * sc, -sa * sc + ca * cb * cc, -ca * sb}, {sb * sc, sb * cc, cb}}};
        }
    }
}
inline std::array<double, 3> apply(const Rot &r, const std::array<double, 3> &v) {
    std::array<double, 3> o{};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o[i] += r.m[i][j] * v[j];
    return o;
}
struct PatchOpt {
    int pmax = 3, extra = 2;
    double bend = 1;         // height of the control points relative to the cell size
    bool allow_rational = true;
    bool bezier = false;
};
// A patch over a deformed rectangular grid of cells of size ~h, heights within +-bend*h, rotated, shifted.
inline gen::SurfData patch(pbt::Src &s, const PatchOpt &o, double h) {
    gen::SurfData c;
    c.p = s.range(1, o.pmax);
    c.q = s.range(1, o.pmax);
    int n = c.p + 1 + (o.bezier ? 0 : (int) s.below(o.extra + 1)), m = c.q + 1 + (o.bezier ? 0 : (int) s.below(o.extra + 1));
    c.rational = o.allow_rational && s.chance(1, 3);
    auto ku = gen::knots(s, n, c.p, 2), kv = gen::knots(s, m, c.q, 2);
    c.U = ku.k;
    c.V = kv.k;
    c.custom = ku.custom || kv.custom;
    bool plane = s.chance(1, 5);
    Rot r = rotation(s);
    double jit = s.flag() ? 0.25 : 0;
    for (int i = 0; i < n; ++i) {
        c.P.emplace_back();
        for (int j = 0; j < m; ++j) {
            double x = i - 0.5 * (n - 1), y = j - 0.5 * (m - 1), z = 0;
            if (jit > 0) x += jit * s.real(-1, 1), y += jit * s.real(-1, 1);
            if (!plane) z = o.bend * (s.flag() ? s.zint(4) / 4.0 : s.real(-1, 1));
            auto q = apply(r, {x * h, y * h, z * h});
            double w = c.rational ? s.real(0.5, 2) : 1;
            c.P.back().push_back({q[0] * w, q[1] * w, q[2] * w, w});
        }
    }
    return c;
}
template<class Pts>
inline void shift(Pts &P, const P3 &v) {
    for (auto &q: P) for (int k = 0; k < 3; ++k) q[k] += (double) v[k] * q[3];
}
inline void shift(gen::SurfData &d, const P3 &v) { for (auto &r: d.P) shift(r, v); }
inline void shift(gen::CurveData &d, const P3 &v) { shift(d.P, v); }
inline std::vector<std::array<double, 4>> flat(const gen::SurfData &d) {
    std::vector<std::array<double, 4>> o;
    for (auto &r: d.P) for (auto &q: r) o.push_back(q);
    return o;
}
inline std::pair<ld, ld> extent(const std::vector<std::array<double, 4>> &P, const P3 &n) {
    ld lo = 1e300L, hi = -1e300L;
    for (auto &q: P) {
        ld x = (n[0] * q[0] + n[1] * q[1] + n[2] * q[2]) / q[3];
        lo = std::min(lo, x);
        hi = std::max(hi, x);
    }
    return {lo, hi};
}
inline P3 direction(pbt::Src &s) {
    for (int i = 0; i < 20; ++i) {
        P3 n{s.coord(1), s.coord(1), s.coord(1)};
        if (ref::norm(n) > 0.1) return ref::mul(n, 1 / ref::norm(n));
    }
    return {0, 0, 1};
}
inline P3 normal(const ref::Surface &r, double u, double v) {
    auto x = ref::cross(r.du(u, v), r.dv(u, v));
    auto l = ref::norm(x);
    return l > 0 ? ref::mul(x, 1 / l) : P3{0, 0, 0};
}

// true if the curve stands still between two control points
inline bool stationary(const gen::CurveData &a, double eps) {
    for (size_t i = 1; i < a.P.size(); ++i) {
        auto &x = a.P[i - 1], &y = a.P[i];
        if (std::hypot(x[0] / x[3] - y[0] / y[3], x[1] / x[3] - y[1] / y[3], x[2] / x[3] - y[2] / y[3]) < eps) return true;
    }
    return false;
}
// the length of the part of the curve that runs within eps of the surface (on a tessellation of both)
inline ld along(const gen::CurveData &a, const gen::SurfData &d, double eps) {
    auto grid = [](const std::vector<double> &kn, int per) {
        std::vector<double> r;
        auto ks = gen::distinct(kn);
        for (size_t i = 0; i + 1 < ks.size(); ++i) for (int k = 0; k < per; ++k) r.push_back(ks[i] + (ks[i + 1] - ks[i]) * k / per);
        r.push_back(ks.back());
        return r;
    };
    auto gv = [](const P3 &p) { return geo::V{p[0], p[1], p[2]}; };
    auto rs = d.ref();
    auto ra = a.ref();
    auto gu = grid(d.U, d.p == 1 ? 1 : 4), gw = grid(d.V, d.q == 1 ? 1 : 4), gt = grid(a.U, 12);
    std::vector<std::vector<geo::V>> G;
    for (double x: gu) {
        G.emplace_back();
        for (double y: gw) G.back().push_back(gv(rs.eval(x, y)));
    }
    auto dist = [&](const geo::V &q) {
        ld m = 1e300;
        for (size_t i = 1; i < G.size(); ++i) for (size_t j = 1; j < G[i].size(); ++j) {
            geo::V p[4] = {G[i - 1][j - 1], G[i][j - 1], G[i][j], G[i - 1][j]};
            m = std::min(m, geo::dist(q, geo::on_triangle(q, p[0], p[1], p[2])));
            m = std::min(m, geo::dist(q, geo::on_triangle(q, p[0], p[2], p[3])));
        }
        return m;
    };
    ld len = 0, before = 1e300;
    geo::V last{};
    for (size_t i = 0; i < gt.size(); ++i) {
        auto q = gv(ra.eval(gt[i]));
        auto m = dist(q);
        if (i && m < eps && before < eps) len += geo::dist(q, last);
        before = m;
        last = q;
    }
    return len;
}
}
