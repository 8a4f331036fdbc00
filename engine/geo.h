// Plain 3-d geometry in long double, and generators of points with many coincidences.
#pragma once
#include "pbt.h"
#include <array>
namespace geo {
using ld = long double;
struct V {
    ld x = 0, y = 0, z = 0;
};
inline V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V operator*(V a, ld s) { return {a.x * s, a.y * s, a.z * s}; }
inline ld dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline ld norm(V a) { return sqrtl(dot(a, a)); }
inline ld dist(V a, V b) { return norm(a - b); }
inline std::ostream &operator<<(std::ostream &o, const V &v) { return o << "(" << (double) v.x << "," << (double) v.y << "," << (double) v.z << ")"; }

// closest points (references)
inline V on_line(V p, V a, V d) { return a + d * (dot(p - a, d) / dot(d, d)); }
inline V on_segment(V p, V a, V b) {
    V d = b - a;
    ld q = dot(d, d);
    if (q == 0) return a;
    ld t = dot(p - a, d) / q;
    return a + d * std::min((ld) 1, std::max((ld) 0, t));
}
inline V on_triangle(V p, V a, V b, V c) {
    V n = cross(b - a, c - a);
    ld nn = dot(n, n);
    V best = on_segment(p, a, b);
    for (V q: {on_segment(p, b, c), on_segment(p, c, a)}) if (dist(p, q) < dist(p, best)) best = q;
    if (nn > 0) {
        V q = p - n * (dot(p - a, n) / nn);
        bool in = dot(cross(b - a, q - a), n) >= 0 && dot(cross(c - b, q - b), n) >= 0 && dot(cross(a - c, q - c), n) >= 0;
        if (in && dist(p, q) < dist(p, best)) best = q;
    }
    return best;
}
// generator: integer lattice (many ties), dyadic, or real coordinates
struct PointGen {
    int kind = 0;
    double m = 1, k = 1;
    explicit PointGen(pbt::Src &s) : kind((int) s.below(3)), m(std::vector<double>{1, 10, 1000, 0.01}[s.below(4)]) {
        if (s.chance(1, 8)) k = std::ldexp(1.0, s.range(-30, 30));   // the same at another scale
    }
    double c(pbt::Src &s) const {
        if (kind == 0) return s.zint(4) * (m > 1 ? 1.0 : m);
        if (kind == 1) return s.zint(64) / 8.0 * m;
        return (2 * s.unit() - 1) * m;
    }
    V operator()(pbt::Src &s) const {
        V v;
        v.x = c(s) * k, v.y = c(s) * k, v.z = c(s) * k;
        return v;
    }
};

struct Ref {
    ld dist = 0, depth = 0;   // distance of the hulls; if 0, a lower bound of how far one must move to separate them (0 if unknown)
};
// distance from the origin to the hull of D by enumeration; depth from the supporting planes
inline Ref reference(const std::vector<V> &D, ld scale) {
    Ref r;
    V best = D[0];
    auto upd = [&](V v) { if (norm(v) < norm(best)) best = v; };
    size_t n = D.size();
    V o{};
    for (size_t i = 0; i < n; ++i) {
        upd(D[i]);
        for (size_t j = i + 1; j < n; ++j) {
            upd(on_segment(o, D[i], D[j]));
        }
    }
    bool found_plane = false;
    ld depth = 1e300L;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j)
            for (size_t k = j + 1; k < n; ++k) {
                V nn = cross(D[j] - D[i], D[k] - D[i]);
                ld l = norm(nn);
                if (l < 1e-9L * scale * scale) continue;
                nn = nn * (1 / l);
                ld off = dot(nn, D[i]);
                if (std::fabs(off) < norm(best)) {
                    V q = nn * off;    // inside the triangle?
                    V a = D[i], b = D[j], c = D[k];
                    if (dot(cross(b - a, q - a), nn) >= 0 && dot(cross(c - b, q - b), nn) >= 0 && dot(cross(a - c, q - c), nn) >= 0) upd(q);
                }
                ld lo = 1e300L, hi = -1e300L;
                for (auto &p: D) {
                    ld x = dot(nn, p) - off;
                    lo = std::min(lo, x);
                    hi = std::max(hi, x);
                    if (lo < -1e-9L * scale && hi > 1e-9L * scale) break;
                }
                if (lo >= -1e-9L * scale) found_plane = true, depth = std::min(depth, -off);   // all points in front: origin must be in front too
                if (hi <= 1e-9L * scale) found_plane = true, depth = std::min(depth, off);
            }
    // certificate of disjointness: everything lies beyond the closest point
    ld m = norm(best), lo = 1e300L;
    if (m > 0) for (auto &p: D) lo = std::min(lo, dot(p, best) / m);
    if (m > 0 && lo > m - 1e-8L * scale && lo > 1e-12L * scale) r.dist = m;
    else if (found_plane) r.depth = std::max((ld) 0, depth);
    return r;
}
}  // namespace geo
