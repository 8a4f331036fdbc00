#include "geo.h"
#include "cmmcore/vec.h"
#include "cmmcore/numeric_utils.h"
using namespace cmmcore;
using geo::V;
using geo::ld;
const pbt::Spec SPEC = {"C44",
    "pairs of segments with lattice, dyadic or real end points of size 0.01..1000: anywhere, crossing at a chosen point, sharing an end, parallel, overlapping, on one line, almost parallel, of no length; and points projected from a centre to the plane z = 0. "
    "non-trivial: both segments have a length and they are not parallel",
    7500000, 75000000, 8};

static vec3 to(V v) { return vec3((double) v.x, (double) v.y, (double) v.z); }
static V of(const vec3 &v) { return {v.x, v.y, v.z}; }
static ld point_segment(V p, V a, V b) {
    V d = b - a;
    ld l = geo::dot(d, d), t = l > 0 ? geo::dot(p - a, d) / l : 0;
    t = std::min<ld>(1, std::max<ld>(0, t));
    return geo::norm(p - (a + d * t));
}
static ld segments(V a, V b, V p, V q) {
    ld best = std::min(std::min(point_segment(a, p, q), point_segment(b, p, q)), std::min(point_segment(p, a, b), point_segment(q, a, b)));
    V d = b - a, e = q - p, n = geo::cross(d, e), r = p - a;
    ld nn = geo::dot(n, n);
    if (nn > 0) {
        ld t = geo::dot(geo::cross(r, e), n) / nn, u = geo::dot(geo::cross(r, d), n) / nn;
        if (t >= 0 && t <= 1 && u >= 0 && u <= 1) best = std::min(best, geo::norm(a + d * t - (p + e * u)));
    }
    return best;
}

void property(pbt::Src &s, pbt::Ctx &c) {
    geo::PointGen g(s);
    V a = g(s), b = g(s), p = g(s), q = g(s);
    int kind = s.pick({4, 2, 2, 2, 2, 1, 1});
    auto frac = [&] { return s.zint(12) / 8.0; };
    switch (kind) {
        case 1: {   // crossing lines
            ld k = frac(), m = frac();
            V x = a + (b - a) * k, d = g(s);
            p = x - d * m;
            q = p + d;
            break;
        }
        case 2: p = s.flag() ? a : b; break;
        case 3: {   // parallel, often overlapping
            V o = s.flag() ? V{} : g(s);
            ld k = frac(), m = frac();
            p = a + (b - a) * k + o;
            q = a + (b - a) * m + o;
            c.label("parallel");
            break;
        }
        case 4: {   // almost parallel
            ld k = frac(), m = frac(), e = std::ldexp(1.0, -s.range(5, 50));
            p = a + (b - a) * k + g(s) * e;
            q = a + (b - a) * m + g(s) * e;
            c.label("almost parallel");
            break;
        }
        case 5: b = a; c.label("no length"); break;
        case 6: q = p; if (s.chance(1, 3)) b = a; c.label("no length"); break;
        default: break;
    }
    a = of(to(a)), b = of(to(b)), p = of(to(p)), q = of(to(q));
    ld sc = geo::norm(a) + geo::norm(b) + geo::norm(p) + geo::norm(q) + 1e-9L;
    c.show([&](auto &o) {
        for (V v: {a, b, p, q}) o << "(" << (double) v.x << "," << (double) v.y << "," << (double) v.z << ") ";
    });
    if (geo::norm(geo::cross(b - a, q - p)) > 1e-6L * geo::norm(b - a) * geo::norm(q - p)) c.nontrivial();
    double t = -7, u = -7;
    vec3 x, y;
    double d = segmentsDistance(to(a), to(b), to(p), to(q), t, u, x, y);
    PBT_CHECK(t >= 0 && t <= 1 && u >= 0 && u <= 1, "parameters ", t, ", ", u);
    ld eps = 1e-14L * sc;
    PBT_CHECK(geo::norm(of(x) - (a + (b - a) * t)) <= eps && geo::norm(of(y) - (p + (q - p) * u)) <= eps, "the closest points are not the points of the parameters");
    PBT_CHECK(fabsl(d - geo::norm(of(x) - of(y))) <= eps, "the distance is ", d, ", the points are ", (double) geo::norm(of(x) - of(y)), " apart");
    ld want = segments(a, b, p, q);
    PBT_CHECK(fabsl(d - want) <= 4e-8L * sc, "distance ", d, " expected ", (double) want);
    // well conditioned: nearly exact
    ld si = geo::norm(b - a) * geo::norm(q - p) > 0 ? geo::norm(geo::cross(b - a, q - p)) / geo::norm(b - a) / geo::norm(q - p) : 0;
    if (si > 1e-2L) PBT_CHECK(fabsl(d - want) <= 1e-11L * sc, "distance ", d, " expected ", (double) want);
    PBT_CHECK(segmentsDistance(to(a), to(b), to(p), to(q)) == d, "the short form differs");
    double d2 = segmentsDistance(to(p), to(q), to(b), to(a));
    PBT_CHECK(fabsl(d2 - want) <= 4e-8L * sc, "distance of the segments exchanged: ", d2, " expected ", (double) want);
    if (want < 1e-12L * sc) c.label("touching");
    // central projection to z = 0: on the line through both points
    vec2 r(99, 98);
    centerProjectionToXY(to(a), to(b), r);
    if (a.z == b.z) PBT_CHECK(r.x == (double) b.x && r.y == (double) b.y, "projection of a point level with the centre");
    else {
        ld k = -a.z / (b.z - a.z);
        V w = a + (b - a) * k;
        ld tol = 1e-13L * (sc + geo::norm(b - a) * fabsl(k));
        PBT_CHECK(fabsl(r.x - w.x) <= tol && fabsl(r.y - w.y) <= tol, "projected to ", r.x, ",", r.y, " expected ", (double) w.x, ",", (double) w.y);
    }
}
