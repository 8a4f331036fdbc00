// Exact planar geometry on integer points, and generators of polygons.
#pragma once
#include "pbt.h"
#include <algorithm>
namespace p2 {
using I = __int128;
struct P {
    long long x = 0, y = 0;
    bool operator==(const P &o) const { return x == o.x && y == o.y; }
    bool operator<(const P &o) const { return x != o.x ? x < o.x : y < o.y; }
};
using Poly = std::vector<P>;
inline std::ostream &operator<<(std::ostream &o, const Poly &p) {
    o << "[";
    for (auto &q: p) o << "(" << q.x << "," << q.y << ") ";
    return o << "]";
}
inline int sgn(I v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline I cross(P a, P b, P c) { return (I) (b.x - a.x) * (c.y - a.y) - (I) (b.y - a.y) * (c.x - a.x); }
inline int orient(P a, P b, P c) { return sgn(cross(a, b, c)); }
inline bool on_segment(P a, P b, P p) {
    return orient(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
inline bool segments_meet(P a, P b, P c, P d) {
    int o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
    if (o1 * o2 < 0 && o3 * o4 < 0) return true;
    return on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b);
}
inline bool segments_cross(P a, P b, P c, P d) {  // properly
    return orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0;
}
inline bool simple(const Poly &p) {
    size_t n = p.size();
    if (n < 3) return false;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j) {
            if (p[i] == p[j]) return false;
            P a = p[i], b = p[(i + 1) % n], c = p[j], d = p[(j + 1) % n];
            if (j == i + 1) {
                if (on_segment(a, b, d) || on_segment(c, d, a)) return false;
            } else if ((j + 1) % n == i) {
                if (on_segment(a, b, c) || on_segment(c, d, b)) return false;
            } else if (segments_meet(a, b, c, d)) return false;
        }
    return true;
}
// 1 inside, 0 on the boundary, -1 outside (winding number)
inline int locate(const Poly &p, P q) {
    int w = 0;
    size_t n = p.size();
    for (size_t i = 0; i < n; ++i) {
        P a = p[i], b = p[(i + 1) % n];
        if (on_segment(a, b, q)) return 0;
        if (a.y <= q.y) {
            if (b.y > q.y && orient(a, b, q) > 0) ++w;
        } else if (b.y <= q.y && orient(a, b, q) < 0) --w;
    }
    return w != 0 ? 1 : -1;
}
// strictly convex hull, counter-clockwise (monotone chain)
inline Poly hull(Poly v) {
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if (v.size() < 3) return v;
    Poly h(2 * v.size());
    size_t k = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        while (k >= 2 && cross(h[k - 2], h[k - 1], v[i]) <= 0) --k;
        h[k++] = v[i];
    }
    for (size_t i = v.size() - 1, t = k + 1; i-- > 0;) {
        while (k >= t && cross(h[k - 2], h[k - 1], v[i]) <= 0) --k;
        h[k++] = v[i];
    }
    h.resize(k - 1);
    return h;
}
// relation of two strictly convex polygons: 1 interiors overlap, 0 only boundaries meet, -1 disjoint
inline int relation(const Poly &a, const Poly &b) {
    bool touch = false;
    for (int w = 0; w < 2; ++w) {
        const Poly &p = w ? b : a, &q = w ? a : b;
        for (size_t i = 0; i < p.size(); ++i) {   // counter-clockwise: outside is to the right
            bool all_out = true, all_off = true;
            for (auto &v: q) {
                int o = orient(p[i], p[(i + 1) % p.size()], v);
                if (o > 0) all_out = all_off = false;
                if (o == 0) all_off = false;
            }
            if (all_off) return -1;
            if (all_out) touch = true;
        }
    }
    return touch ? 0 : 1;
}
inline Poly cloud(pbt::Src &s, int n, int m) {
    Poly v;
    for (int i = 0; i < n; ++i) v.push_back({s.zint(m), s.zint(m)});
    return v;
}
// a simple polygon: hull, star-shaped about a point, or a staircase / comb
inline Poly simple_polygon(pbt::Src &s, int m) {
    int kind = (int) s.below(4);
    bool many = s.chance(1, 30);
    int n = 3 + (int) s.below(many ? s.chance(1, 40) ? 600 : 80 : 12);
    if (kind == 0) return hull(cloud(s, n, m));
    if (kind == 1 || kind == 2) {   // sort around the first point; ties by distance keep the farthest
        Poly v = cloud(s, n, m), r;
        P o = v[0];
        auto half = [&](P a) { return a.y < o.y || (a.y == o.y && a.x < o.x); };
        v.erase(std::remove(v.begin(), v.end(), o), v.end());
        std::sort(v.begin(), v.end(), [&](P a, P b) {
            if (half(a) != half(b)) return half(a) < half(b);
            I c = cross(o, a, b);
            if (c != 0) return c > 0;
            return (I) (a.x - o.x) * (a.x - o.x) + (I) (a.y - o.y) * (a.y - o.y) > (I) (b.x - o.x) * (b.x - o.x) + (I) (b.y - o.y) * (b.y - o.y);
        });
        for (auto &q: v) if (r.empty() || cross(o, r.back(), q) != 0 || half(r.back()) != half(q)) r.push_back(q);
        return r;
    }
    // comb: two x-monotone chains
    Poly lo, hi;
    int k = 2 + (int) s.below(many ? 40 : 6);
    long long x = s.zint(m);
    for (int i = 0; i < k; ++i) {
        long long y = s.zint(m), h = 1 + (long long) s.below(m);
        lo.push_back({x, y});
        hi.push_back({x, y + h});
        x += 1 + (long long) s.below(m / 2 + 1);
    }
    std::reverse(hi.begin(), hi.end());
    lo.insert(lo.end(), hi.begin(), hi.end());
    return lo;
}
}  // namespace p2
