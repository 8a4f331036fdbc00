// Polynomial Bezier patches: generator and reference.
#pragma once
#include "nurbs_glue.h"
namespace bz {
using ref::ld;
using ref::P3;
struct Patch {
    int p, q;
    std::vector<std::vector<std::array<double, 3>>> P;
    double a0 = 0, a1 = 1, b0 = 0, b1 = 1, w = 1;   // domain and common weight
    double scale() const {
        double s = 1e-3;
        for (auto &r: P) for (auto &c: r) for (double x: c) s = std::max(s, std::fabs(x));
        return s;
    }
    ref::Surface ref() const {   // over the unit square
        ref::Surface r;
        r.p = p, r.q = q;
        for (int i = 0; i <= p; ++i) r.U.push_back(0);
        for (int i = 0; i <= p; ++i) r.U.push_back(1);
        for (int i = 0; i <= q; ++i) r.V.push_back(0);
        for (int i = 0; i <= q; ++i) r.V.push_back(1);
        for (auto &row: P) {
            r.P.emplace_back();
            for (auto &c: row) r.P.back().push_back({c[0], c[1], c[2], 1});
        }
        return r;
    }
    cmmcore::NURBSSurface surface() const {
        std::vector<std::vector<cmmcore::vec4>> C;
        for (auto &row: P) {
            C.emplace_back();
            for (auto &c: row) C.back().push_back(cmmcore::vec4(c[0] * w, c[1] * w, c[2] * w, w));
        }
        std::vector<double> U(p + 1, a0), V(q + 1, b0);
        U.resize(2 * p + 2, a1);
        V.resize(2 * q + 2, b1);
        return cmmcore::NURBSSurface(C, {p, q}, U, V);
    }
};
inline std::ostream &operator<<(std::ostream &o, const Patch &a) {
    o << "degree " << a.p << "x" << a.q << " domain [" << a.a0 << "," << a.a1 << "]x[" << a.b0 << "," << a.b1 << "] weight " << a.w << " points";
    for (auto &r: a.P) { o << " |"; for (auto &c: r) o << " (" << c[0] << "," << c[1] << "," << c[2] << ")"; }
    return o;
}
// kind 0: anything, 1: a bumpy height field (regular), 2: nearly flat, tilted
inline Patch patch(pbt::Src &s, int dmax, int kind) {
    Patch a;
    auto deg = [&] { return s.chance(1, 4) ? s.range(1, dmax) : s.range(1, std::min(3, dmax)); };
    a.p = deg(), a.q = deg();
    double m = std::vector<double>{1, 10, 100}[s.below(3)];
    double t = kind == 1 ? 0.4 : 0.02;
    double tx = s.coord(1), ty = s.coord(1);
    for (int i = 0; i <= a.p; ++i) {
        a.P.emplace_back();
        for (int j = 0; j <= a.q; ++j) {
            if (kind == 0) a.P.back().push_back({s.coord(m), s.coord(m), s.coord(m)});
            else {
                double x = i / (double) a.p, y = j / (double) a.q;
                a.P.back().push_back({m * (x + 0.1 * t * s.real(-1, 1) / a.p), m * (y + 0.1 * t * s.real(-1, 1) / a.q), m * (tx * x + ty * y + t * s.real(-1, 1))});
            }
        }
    }
    if (s.chance(1, 4)) a.a0 = s.zint(3), a.a1 = a.a0 + (1 + s.below(8)) / 4.0, a.b0 = s.zint(3), a.b1 = a.b0 + (1 + s.below(8)) / 4.0;
    if (s.chance(1, 8)) a.w = std::vector<double>{2, 0.5, 3}[s.below(3)];
    return a;
}
}
