#include "geo.h"
#include "cmmcore/vec.h"
#include "cmmcore/convexhull.h"
using namespace cmmcore;
using geo::V;
using geo::ld;
const pbt::Spec SPEC = {"C25",
    "1 to 60 (sometimes up to 400) spatial points: real points in general position, lattice points, control-net-like grids, points in a tilted plane or on a line (exactly or up to rounding), with duplicates, in any order. The hull is judged by its support in many directions (axes, differences and cross products of point pairs, random ones). "
    "non-trivial: at least 5 distinct points",
    240000, 3000000, 8};

void property(pbt::Src &s, pbt::Ctx &c) {
    if (s.chance(1, 400)) {
        std::vector<vec3> none, h;
        PBT_CHECK(convex_hull(none, h) == ConvexHullResult::EMPTY && h.empty(), "no points are not reported as nothing");
        return;
    }
    int shape = (int) s.below(6);
    int n = 1 + (int) (s.flag() ? s.below(60) : s.below(12));
    if (s.chance(1, 40)) n = 80 + (int) s.below(321);
    double m = std::vector<double>{1, 10, 1000, 0.01}[s.below(4)];
    std::vector<V> in;
    auto rnd = [&](const V &v) { return V{(double) v.x, (double) v.y, (double) v.z}; };
    geo::V o{s.coord(1), s.coord(1), s.coord(1)}, e1{1, 0, 0}, e2{0, 1, 0};
    if (s.flag()) e1 = {s.coord(1), s.coord(1), s.coord(1)}, e2 = {s.coord(1), s.coord(1), s.coord(1)};
    if (s.flag()) o = V{};
    if (geo::norm(geo::cross(e1, e2)) < 0.1) e1 = {0, 1, 0}, e2 = {0, 0, 1};
    static const char *names[] = {"general", "lattice", "coarse lattice", "plane", "line", "grid"};
    int w = 1 + (int) s.below(n > 60 ? 20 : 7);
    for (int i = 0; i < n; ++i) {
        V p;
        switch (shape) {
            case 0: p = {(2 * s.unit() - 1) * m, (2 * s.unit() - 1) * m, (2 * s.unit() - 1) * m}; break;
            case 1: p = {s.zint(8) * 1.0, s.zint(8) * 1.0, s.zint(8) * 1.0}; break;
            case 2: p = {s.zint(1) * 1.0, s.zint(1) * 1.0, s.zint(1) * 1.0}; break;
            case 3: {
                bool r = s.flag();
                double a = r ? s.real(-1, 1) : s.zint(3), b = r ? s.real(-1, 1) : s.zint(3);
                p = (o + e1 * a + e2 * b) * m;
                break;
            }
            case 4: p = (o + e1 * (s.flag() ? s.real(-1, 1) : s.zint(3))) * m; break;
            default: p = {(i % w) * 1.0, (i / w) * 1.0, s.flag() ? 0 : s.zint(3) / 2.0}; p = p * m;
        }
        in.push_back(rnd(p));
        if (i && s.chance(1, 10)) in.back() = s.of(in);
    }
    if (s.chance(1, 8)) {   // the same at another scale
        double k = std::ldexp(1.0, s.range(-30, 30));
        for (auto &p: in) p = p * k;
    }
    c.show([&](auto &o2) { o2 << names[shape] << " points"; for (auto &p: in) o2 << " " << p; });
    std::vector<vec3> pts, hull;
    for (auto &p: in) pts.push_back(vec3((double) p.x, (double) p.y, (double) p.z));
    bool which = s.flag();
    ConvexHullResult kind = ConvexHullResult::VOLUME;
    if (which) convex_hull3d(pts, hull);
    else kind = convex_hull(pts, hull);
    ld scale = 1e-30L;
    for (auto &p: in) scale = std::max(scale, geo::norm(p));
    std::set<std::array<double, 3>> din, dh;
    for (auto &p: pts) din.insert({p.x, p.y, p.z});
    PBT_CHECK(!hull.empty(), "no hull for ", in.size(), " points");
    for (auto &h: hull) {
        PBT_CHECK(din.count({h.x, h.y, h.z}), "hull vertex ", pbt::str(h), " is not an input point");
        dh.insert({h.x, h.y, h.z});
    }
    // support in many directions
    std::vector<V> dirs;
    for (int k = 0; k < 3; ++k) for (double sg: {1.0, -1.0}) dirs.push_back({k == 0 ? sg : 0, k == 1 ? sg : 0, k == 2 ? sg : 0});
    for (int k = 0; k < 12; ++k) {
        V a = s.of(in), b = s.of(in), d = s.of(in);
        dirs.push_back(a - b);
        V x = geo::cross(b - a, d - a);
        dirs.push_back(x);
        dirs.push_back(x * -1);
        dirs.push_back(V{s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)});
    }
    for (auto &d: dirs) {
        ld l = geo::norm(d);
        if (l <= 0) continue;
        V u = d * (1 / l);
        ld si = -1e300L, sh = -1e300L;
        for (auto &p: in) si = std::max(si, geo::dot(p, u));
        for (auto &h: hull) sh = std::max(sh, geo::dot(V{h.x, h.y, h.z}, u));
        PBT_CHECK(si - sh <= 1e-9L * scale, "the hull does not reach as far as the points in direction ", u, ": ", (double) sh, " < ", (double) si);
    }
    if (din.size() >= 5) c.nontrivial();
    c.label(names[shape]);
    // general position: no vertex is interior or repeated
    if (shape == 0 && din.size() >= 5) {
        ld thick = 0;
        for (size_t i = 3; i < in.size(); ++i) thick = std::max(thick, std::fabs(geo::dot(geo::cross(in[1] - in[0], in[2] - in[0]), in[i] - in[0])));
        if (thick < 1e-6L * scale * scale * scale) return;
        ld gap = 1e300L;
        for (size_t i = 0; i < in.size(); ++i) for (size_t j = 0; j < i; ++j) gap = std::min(gap, geo::dist(in[i], in[j]));
        if (gap > 1e-6L * scale) PBT_CHECK(dh.size() == hull.size(), "a hull vertex is repeated");
        size_t interior = 0;
        for (auto &h: dh) {
            // a vertex is extreme iff some plane through three points of the hull ... decided by the reference below
            V p{h[0], h[1], h[2]};
            // p is inside iff it is inside a tetrahedron of other input points: search fan from one point
            std::vector<V> q;
            for (auto &x: din) if (x != h) q.push_back({x[0], x[1], x[2]});
            bool in_tet = false;
            if (q.size() > 14) {   // the others that reach farthest in some directions
                std::vector<V> far;
                for (int k = 0; k < 14; ++k) {
                    V u{std::sin(k * 7.1L + 1), std::cos(k * 3.7L), std::sin(k * 5.3L + 2)}, best = q[0];
                    for (auto &x: q) if (geo::dot(x, u) > geo::dot(best, u)) best = x;
                    far.push_back(best);
                }
                q = far;
            }
            {
                auto vol = [](V a, V b, V e, V d) { return geo::dot(geo::cross(b - a, e - a), d - a); };
                for (size_t i = 0; i < q.size() && !in_tet; ++i)
                    for (size_t j = i + 1; j < q.size() && !in_tet; ++j)
                        for (size_t k = j + 1; k < q.size() && !in_tet; ++k)
                            for (size_t l = k + 1; l < q.size() && !in_tet; ++l) {
                                ld t = vol(q[i], q[j], q[k], q[l]), eps = 1e-6L * scale * scale * scale;
                                if (t < 0) t = -1; else t = 1;
                                in_tet = t * vol(p, q[j], q[k], q[l]) > eps && t * vol(q[i], p, q[k], q[l]) > eps && t * vol(q[i], q[j], p, q[l]) > eps && t * vol(q[i], q[j], q[k], p) > eps;
                            }
            }
            interior += in_tet;
        }
        PBT_CHECK(interior == 0, interior, " hull vertices are interior points");
        if (!which) PBT_CHECK(kind == ConvexHullResult::VOLUME, "points in general position are not reported as a volume");
    }
    if (!which) {
        bool point = din.size() == 1;
        ld spread = 0;
        for (auto &p: in) spread = std::max(spread, geo::dist(p, in[0]));
        if (!point && spread < 1e-9L * scale) return;
        PBT_CHECK((kind == ConvexHullResult::POINT) == point, point ? "one point is not reported as a point" : "several points are reported as a point");
        if (shape == 4 && !point) PBT_CHECK(kind == ConvexHullResult::LINE, "points on a line are not reported as a line");
        if (shape == 3) PBT_CHECK(kind != ConvexHullResult::VOLUME, "points in a plane are reported as a volume");
    }
}
