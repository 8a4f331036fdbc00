#include "geo.h"
#include "plane2.h"
#include "cmmcore/vec.h"
#include "cmmcore/separability.h"
using namespace cmmcore;
using geo::V;
using geo::ld;
const pbt::Spec SPEC = {"C26",
    "pairs of point sets (1..12 points, sometimes up to 165): lattice points, real points, flat and collinear sets, control nets; the second set is placed freely, pushed along a direction to a chosen gap, or moved so that a combination of its points meets a combination of the first set's points. The reference distance and depth of the two hulls come from enumerating the faces of all pairwise differences; large sets are put on the two sides of a slab or around a common point so that the distance is known. Planar sets: convex polygons with integer corners judged by exact separating axes. "
    "non-trivial: both sets have at least 3 points and the boxes of the sets overlap",
    60000, 2000000, 8};

using geo::Ref;
using geo::reference;

static void judge(pbt::Src &s, pbt::Ctx &c, std::vector<V> A, std::vector<V> B, std::vector<V> D, ld scale, Ref ref) {
    if (s.chance(1, 8)) {   // the same at another scale
        ld k = std::ldexp(1.0, s.range(-30, 30));
        for (auto *x: {&A, &B, &D}) for (auto &v: *x) v = v * k;
        scale *= k, ref.dist *= k, ref.depth *= k;
        c.label("scaled");
        c.show([&](auto &o) { o << " times " << (double) k; });
    }
    std::vector<vec3> a, b;
    for (auto &p: A) a.push_back(vec3((double) p.x, (double) p.y, (double) p.z));
    for (auto &p: B) b.push_back(vec3((double) p.x, (double) p.y, (double) p.z));
    // boxes: exact
    bool apart = false, boxes_meet = true;
    for (int ax = 0; ax < 3; ++ax) {
        double l1 = 1e300, h1 = -1e300, l2 = 1e300, h2 = -1e300;
        for (auto &v: a) l1 = std::min(l1, v[ax]), h1 = std::max(h1, v[ax]);
        for (auto &v: b) l2 = std::min(l2, v[ax]), h2 = std::max(h2, v[ax]);
        if (h1 < l2 || h2 < l1) apart = true;
    }
    boxes_meet = !apart;
    PBT_CHECK(AABBTest(a, b) == apart, "box test says ", !apart, " but the boxes are ", apart ? "apart" : "not apart");
    PBT_CHECK(AABBTest(b, a) == apart, "box test is not symmetric");
    bool disjoint = ref.dist > 1e-9L * scale, overlap = ref.depth > 1e-9L * scale, meet = ref.dist == 0;
    c.label(disjoint ? (boxes_meet ? "disjoint hulls, boxes meet" : "disjoint boxes") : overlap ? "hulls overlap" : "hulls touch");
    for (int w = 0; w < 2; ++w) {
        auto &x = w ? b : a;
        auto &y = w ? a : b;
        bool sat = SAT3D(x, y);
        if (disjoint) PBT_CHECK(sat, "sets at distance ", (double) ref.dist, " are not reported as separated");
        if (overlap) PBT_CHECK(!sat, "overlapping sets (depth at least ", (double) ref.depth, ") are reported as separated");
        std::vector<vec3> simplex;
        vec3 q(7, 7, 7);
        bool hit = GJK(x, y, simplex, q);
        ld got = q.length();
        if (disjoint) {
            PBT_CHECK(!hit, "distance test reports a collision of sets at distance ", (double) ref.dist);
            PBT_CHECK(std::fabs(got - ref.dist) <= 1e-7L * scale, "distance of the hulls is ", (double) ref.dist, ", the test found ", (double) got);
            V cp{q.x, q.y, q.z};   // lies in the difference: beyond every supporting plane it defines
            ld lo = 1e300L;
            for (auto &d: D) lo = std::min(lo, geo::dot(w ? d * -1 : d, cp) / got);
            PBT_CHECK(lo >= got - 1e-4L * scale * (1 + scale / got) * 1e-3L, "the closest point does not separate the sets");
        }
        if (overlap) PBT_CHECK(hit, "distance test reports no collision of overlapping sets, depth at least ", (double) ref.depth);
        if (meet && !hit) PBT_CHECK(got <= 1e-9L * scale, "sets that meet are reported at distance ", (double) got);
        // a tolerance: separated means farther apart than it
        ld tol = std::vector<ld>{1e-6L, 1e-3L, 0.1L}[s.below(3)] * scale;
        bool st = SAT3D(x, y, (double) tol);
        if (ref.dist > 1.001L * tol) PBT_CHECK(st, "sets at distance ", (double) ref.dist, " are not separated for the tolerance ", (double) tol);
        if (ref.dist < 0.999L * tol) PBT_CHECK(!st, "sets at distance ", (double) ref.dist, " are separated for the tolerance ", (double) tol);
    }
    if (a.size() >= 3 && b.size() >= 3 && boxes_meet) c.nontrivial();
}

// sets of many points whose distance is known from how they are made: on both sides of a slab, with a point of the one
// set's face above a point of the other's; or around a common point
static void large(pbt::Src &s, pbt::Ctx &c) {
    V e1{s.coord(1), s.coord(1), s.coord(1)}, e2{s.coord(1), s.coord(1), s.coord(1)};
    if (s.flag() || geo::norm(geo::cross(e1, e2)) < 0.1L) e1 = {1, 0, 0}, e2 = {0, 1, 0};
    V e3 = geo::cross(e1, e2);
    e1 = e1 * (1 / geo::norm(e1)), e3 = e3 * (1 / geo::norm(e3)), e2 = geo::cross(e3, e1);
    bool lattice = s.flag();
    auto num = [&](ld m) { return lattice ? (ld) s.zint(std::max(1, (int) m)) : (2 * (ld) s.unit() - 1) * m; };
    ld m = std::vector<ld>{2, 10, 50}[s.below(3)];
    bool apart = s.flag();
    ld g = apart ? std::vector<ld>{1, 0.1L, 1e-3L, 10}[s.below(4)] : 0;
    int na = 5 + (int) s.below(s.flag() ? 160 : 20), nb = 5 + (int) s.below(s.flag() ? 160 : 20);
    struct L { ld x, y, z; };
    auto mean = [&](const std::vector<L> &p, size_t n) {
        L q{0, 0, 0};
        ld w = 0;
        for (size_t i = 0; i < n; ++i) {
            ld k = (ld) (1 + s.below(3));
            q.x += k * p[i].x, q.y += k * p[i].y, q.z += k * p[i].z, w += k;
        }
        return L{q.x / w, q.y / w, q.z / w};
    };
    std::vector<L> a, b;
    Ref ref;
    if (apart) {
        size_t fa = 1 + s.below(4), fb = 1 + s.below(4);
        for (int i = 0; i < na; ++i) a.push_back({num(m), num(m), (size_t) i < fa ? 0 : -std::fabs(num(m))});
        for (int i = 0; i < nb; ++i) b.push_back({num(m), num(m), ((size_t) i < fb ? 0 : std::fabs(num(m))) + g});
        L ca = mean(a, fa), cb = mean(b, fb);
        for (auto &q: b) q.x += ca.x - cb.x, q.y += ca.y - cb.y;
        ref.dist = g;
    } else {
        ld r = m * std::vector<ld>{0.1L, 0.5L, 0.02L}[s.below(3)];   // a ball of a third of this radius is inside the first set
        a = {{r, r, r}, {r, -r, -r}, {-r, r, -r}, {-r, -r, r}};
        while ((int) a.size() < na) a.push_back({num(m), num(m), num(m)});
        for (int i = 0; i < nb; ++i) b.push_back({num(m), num(m), num(m)});
        L cb = mean(b, 1 + s.below(b.size()));
        for (auto &q: b) q.x -= cb.x, q.y -= cb.y, q.z -= cb.z;
        ref.depth = r / 4;
    }
    if (s.flag()) std::swap(a, b);
    V common{};
    if (s.flag()) common = {s.coord(50), s.coord(50), s.coord(50)};
    auto place = [&](std::vector<L> &p) {
        for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[s.below(i)]);
        std::vector<V> r;
        for (auto &q: p) {
            V v = e1 * q.x + e2 * q.y + e3 * q.z + common;
            r.push_back({(double) v.x, (double) v.y, (double) v.z});
        }
        return r;
    };
    auto A = place(a), B = place(b);
    c.show([&](auto &o) { o << "large, distance " << (double) ref.dist << " A:"; for (auto &p: A) o << " " << p; o << " B:"; for (auto &p: B) o << " " << p; });
    std::vector<V> D;
    for (auto &p: A) for (auto &q: B) D.push_back(p - q);
    ld scale = 1e-30L;
    for (auto &d: D) scale = std::max(scale, geo::norm(d));
    for (auto &d: A) scale = std::max(scale, geo::norm(d));
    c.label("many points");
    judge(s, c, A, B, D, scale, ref);
}

static void spatial(pbt::Src &s, pbt::Ctx &c) {
    int kind = (int) s.below(5);
    static const char *names[] = {"lattice", "real", "flat", "collinear", "net"};
    auto make = [&](int n) {
        std::vector<V> p;
        V o{s.coord(1), s.coord(1), s.coord(1)}, e1{s.coord(1), s.coord(1), s.coord(1)}, e2{s.coord(1), s.coord(1), s.coord(1)};
        for (int i = 0; i < n; ++i) {
            V v;
            switch (kind) {
                case 0: v = {s.zint(3) * 1.0L, s.zint(3) * 1.0L, s.zint(3) * 1.0L}; break;
                case 1: v = {s.real(-2, 2), s.real(-2, 2), s.real(-2, 2)}; break;
                case 2: v = o + e1 * s.zint(2) + e2 * s.zint(2); break;
                case 3: v = o + e1 * (s.flag() ? s.zint(3) : s.real(-2, 2)); break;
                default: v = {(i % 3) * 1.0L - 1, (i / 3) * 1.0L - 1, s.zint(4) / 4.0L};
            }
            p.push_back(v);
        }
        return p;
    };
    int na = 1 + (int) s.below(c.thorough ? 10 : 8), nb = 1 + (int) s.below(c.thorough ? 10 : 8);
    if (kind == 4) na = 3 + (int) s.below(7), nb = 3 + (int) s.below(6);
    auto A = make(na);
    if (s.chance(1, 4)) kind = (int) s.below(5);
    auto B = make(nb);
    auto move = [](std::vector<V> &p, V d) { for (auto &v: p) v = v + d; };
    auto comb = [&](const std::vector<V> &p) {
        V v{};
        ld w = 0;
        for (auto &q: p) {
            ld x = (ld) s.below(4);
            v = v + q * x;
            w += x;
        }
        return w > 0 ? v * (1 / w) : p[0];
    };
    int place = (int) s.below(4);
    if (place == 1) {
        V d{s.coord(1), s.coord(1), s.coord(1)};
        if (geo::norm(d) < 0.1) d = {0, 0, 1};
        d = d * (1 / geo::norm(d));
        ld hi = -1e300L, lo = 1e300L;
        for (auto &v: A) hi = std::max(hi, geo::dot(v, d));
        for (auto &v: B) lo = std::min(lo, geo::dot(v, d));
        ld gap = std::vector<ld>{1, 0.1L, 1e-3L, 10, 1e-5L, -0.1L, -1e-3L}[s.below(7)];
        move(B, d * (hi - lo + gap));
    } else if (place == 2) move(B, comb(A) - comb(B));
    else if (place == 3) move(B, V{s.real(-3, 3), s.real(-3, 3), s.real(-3, 3)});
    // a common motion and scale
    V common{};
    if (s.flag()) common = {s.coord(50), s.coord(50), s.coord(50)};
    ld k = std::vector<ld>{1, 1, 1, 100, 0.01L}[s.below(5)];
    auto dbl = [&](std::vector<V> &p) { for (auto &v: p) v = {(double) ((v.x + common.x) * k), (double) ((v.y + common.y) * k), (double) ((v.z + common.z) * k)}; };
    dbl(A);
    dbl(B);
    c.show([&](auto &o) { o << names[kind] << " A:"; for (auto &p: A) o << " " << p; o << " B:"; for (auto &p: B) o << " " << p; });
    std::vector<V> D;
    for (auto &a: A) for (auto &b: B) D.push_back(a - b);
    ld scale = 1e-30L;
    for (auto &d: D) scale = std::max(scale, geo::norm(d));
    for (auto &d: A) scale = std::max(scale, geo::norm(d));
    judge(s, c, A, B, D, scale, reference(D, scale));
}

static void planar(pbt::Src &s, pbt::Ctx &c) {
    int m = 1 + (int) s.below(9);
    auto A = p2::hull(p2::cloud(s, 1 + (int) s.below(8), m)), B = p2::hull(p2::cloud(s, 1 + (int) s.below(8), m));
    p2::P d{s.zint(2 * m), s.zint(2 * m)};
    for (auto &p: B) p.x += d.x, p.y += d.y;
    if (s.flag()) std::reverse(A.begin(), A.end());
    if (s.flag()) std::reverse(B.begin(), B.end());
    c.show([&](auto &o) { o << "polygons " << A << " " << B; });
    // exact: separated iff some edge (or direction of a difference) separates
    bool sep = false, strict = false;
    auto test = [&](long long nx, long long ny) {
        if (!nx && !ny) return;
        long long l1 = LLONG_MAX, h1 = LLONG_MIN, l2 = LLONG_MAX, h2 = LLONG_MIN;
        for (auto &p: A) { auto v = p.x * nx + p.y * ny; l1 = std::min(l1, v), h1 = std::max(h1, v); }
        for (auto &p: B) { auto v = p.x * nx + p.y * ny; l2 = std::min(l2, v), h2 = std::max(h2, v); }
        if (h1 < l2 || h2 < l1) sep = true;
    };
    for (auto *P: {&A, &B})
        for (size_t i = 0; i < P->size(); ++i) {
            auto p = (*P)[i], q = (*P)[(i + 1) % P->size()];
            test(q.y - p.y, p.x - q.x);
            test(q.x - p.x, q.y - p.y);
        }
    for (auto &p: A) for (auto &q: B) test(p.x - q.x, p.y - q.y);
    double k = s.flag() ? 1 : s.chance(1, 8) ? std::ldexp(1.0, s.range(-20, 20)) : 0.5;
    auto midpoints = [&](std::vector<p2::P> &p, bool yes) {   // vertices within edges
        std::vector<p2::P> r;
        for (size_t i = 0; i < p.size(); ++i) {
            r.push_back({p[i].x * 2, p[i].y * 2});
            auto &q = p[(i + 1) % p.size()];
            if (yes && p.size() > 2 && s.flag()) r.push_back({p[i].x + q.x, p[i].y + q.y});
        }
        return r;
    };
    bool ma = s.chance(1, 4), mb = s.chance(1, 4);
    A = midpoints(A, ma), B = midpoints(B, mb);
    k /= 2;
    polygon2 a, b;
    for (auto &p: A) a.push_back(vec2(p.x * k, p.y * k));
    for (auto &p: B) b.push_back(vec2(p.x * k, p.y * k));
    for (int w = 0; w < 2; ++w) {
        bool r = w ? SAT2D(b, a) : SAT2D(a, b);
        if (!sep) PBT_CHECK(!r, "intersecting polygons are reported as separated");
        else PBT_CHECK(r, "disjoint polygons are not reported as separated", w ? " (operands swapped)" : "");
    }
    if (s.chance(1, 16)) {
        bool threw = false;
        polygon2 none;
        try { s.flag() ? SAT2D(a, none) : SAT2D(none, b); } catch (const std::exception &) { threw = true; }
        PBT_CHECK(threw, "a polygon without vertices is not refused");
    }
    if (a.size() >= 3 && b.size() >= 3) c.nontrivial();
    c.label(sep ? "planar, separated" : "planar, meeting");
}

void property(pbt::Src &s, pbt::Ctx &c) {
    auto w = s.below(3);
    if (w == 1) planar(s, c);
    else if (w == 2 && s.chance(1, 10)) large(s, c);
    else spatial(s, c);
}
