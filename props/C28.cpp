#include "plane2.h"
#include "cmmcore/vec.h"
#include "cmmcore/polygon.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C28",
    "simple polygons with integer coordinates (convex hulls, star-shaped, combs; up to 14, sometimes up to 80 and rarely up to 600, vertices, collinear runs and horizontal edges included) scaled by a power of two, in either orientation and from any starting vertex, queried at lattice points and at points level with vertices; pairs of strictly convex polygons of which one is shifted so that they often touch or nearly touch. "
    "non-trivial: a query whose level is that of a vertex, or a pair whose boxes meet",
    3200000, 32000000, 8};

static polygon2 conv(const p2::Poly &p, double k) {
    polygon2 r;
    for (auto &q: p) r.push_back(vec2(q.x * k, q.y * k));
    return r;
}
void property(pbt::Src &s, pbt::Ctx &c) {
    int m = std::vector<int>{6, 20, 3, 500}[s.below(4)];
    double k = std::vector<double>{1, 0.125, 16, 0x1p-20}[s.below(4)];
    if (s.chance(1, 8)) k = std::ldexp(k, s.range(-30, 30));
    if (s.flag()) {
        p2::Poly p = p2::simple_polygon(s, m);
        if (!p2::simple(p)) return;
        if (s.flag()) std::reverse(p.begin(), p.end());
        std::rotate(p.begin(), p.begin() + s.below(p.size()), p.end());
        auto P = conv(p, k);
        c.show([&](auto &o) { o << "polygon " << p << " scale " << k; });
        for (int i = 0, n = 1 + (int) s.below(12); i < n; ++i) {
            p2::P q{s.zint(m + 2), s.zint(m + 2)};
            bool level = false;
            if (s.flag()) q.y = s.of(p).y;
            if (s.chance(1, 4)) q.x = s.of(p).x + s.zint(2);
            for (auto &v: p) level = level || v.y == q.y;
            int want = p2::locate(p, q);
            if (want == 0) continue;
            bool got = pointInPolygon2D(P, vec2(q.x * k, q.y * k));
            PBT_CHECK(got == (want > 0), "point (", q.x, ",", q.y, ") is ", want > 0 ? "inside" : "outside", " but reported ", got ? "inside" : "outside");
            if (level) c.nontrivial();
            c.label(want > 0 ? "inside" : "outside");
        }
        // normals are perpendicular to the edges, one per edge
        std::vector<vec2> N;
        bool unit = s.flag();
        if (s.chance(1, 4)) {   // after those of another polygon
            size_t before = 1 + s.below(5);
            for (size_t i = 0; i < before; ++i) N.push_back(vec2(3.0 * (double) i, 4));
            polygonNormals(P, N, unit);
            PBT_CHECK(N.size() >= P.size(), "normals: ", N.size(), " for ", P.size(), " edges");
            N.erase(N.begin(), N.end() - (long) P.size());
        } else
            polygonNormals(P, N, unit);
        if (!unit) {
            std::vector<vec2> M;
            polygonNormals(P, M);
            PBT_CHECK(M == N, "normals are not what they are without asking for unit length");
        }
        PBT_CHECK(N.size() == P.size(), "normals: ", N.size(), " for ", P.size(), " edges");
        UnorderedNormal2Set U;
        polygonUniqueNormals(P, U, unit);
        for (size_t i = 0; i < P.size(); ++i) {
            vec2 e(P[i], P[(i + 1) % P.size()]);
            double el = e.length(), nl = N[i].length();
            PBT_CHECK(std::fabs(e.x * N[i].x + e.y * N[i].y) <= 1e-12 * el * nl, "normal ", i, " is not perpendicular to its edge");
            PBT_CHECK(std::fabs(nl - (unit ? 1 : el)) <= 1e-12 * std::max(1.0, el), "normal ", i, " has length ", nl);
            PBT_CHECK(N[i].x * e.y - N[i].y * e.x > 0, "normal ", i, " points to the wrong side");
            bool found = false;
            for (auto &u: U) found = found || std::fabs(e.x * u.x + e.y * u.y) <= 1e-9 * el * u.length();
            PBT_CHECK(found, "no unique normal for edge ", i);
        }
        for (auto &u: U) {
            if (unit) PBT_CHECK(std::fabs(u.length() - 1) <= 1e-12, "a unique normal has length ", u.length());
            bool found = false;
            for (auto &n: N) found = found || (u - n).length() <= 1e-9 * n.length();
            PBT_CHECK(found, "a unique normal belongs to no edge");
        }
        return;
    }
    p2::Poly a = p2::hull(p2::cloud(s, 3 + (int) s.below(8), m)), b = p2::hull(p2::cloud(s, 3 + (int) s.below(8), std::max(2, m / (1 + (int) s.below(4)))));
    if (a.size() < 3 || b.size() < 3) return;
    // shift b: vertex onto vertex or edge of a, off by a little, or anywhere
    p2::P va = s.of(a), vb = s.of(b), d{0, 0};
    if (s.chance(3, 4)) {
        d = {va.x - vb.x, va.y - vb.y};
        if (s.flag()) d.x += s.zint(2), d.y += s.zint(2);
    } else d = {s.zint(2 * m), s.zint(2 * m)};
    for (auto &q: b) q.x += d.x, q.y += d.y;
    if (s.chance(1, 16)) b = a;
    int want = p2::relation(a, b);
    p2::Poly A = a, B = b;
    if (s.flag()) std::reverse(A.begin(), A.end());
    if (s.flag()) std::reverse(B.begin(), B.end());
    std::rotate(A.begin(), A.begin() + s.below(A.size()), A.end());
    std::rotate(B.begin(), B.begin() + s.below(B.size()), B.end());
    c.show([&](auto &o) { o << "convex " << A << " and " << B << " scale " << k; });
    auto PA = conv(A, k), PB = conv(B, k);
    auto name = [](PolygonRelationship2D r) { return r == PolygonRelationship2D::INTERSECT ? 1 : r == PolygonRelationship2D::TOUCH ? 0 : -1; };
    static const char *W[] = {"disjoint", "touching", "intersecting"};
    int g1 = name(polygonRelationship2D(PA, PB)), g2 = name(polygonRelationship2D(PB, PA));
    PBT_CHECK(g1 == want, "the polygons are ", W[want + 1], " but reported ", W[g1 + 1]);
    PBT_CHECK(g2 == want, "exchanged, the polygons are ", W[want + 1], " but reported ", W[g2 + 1]);
    auto box = [](const p2::Poly &p) {
        long long x0 = p[0].x, x1 = x0, y0 = p[0].y, y1 = y0;
        for (auto &q: p) x0 = std::min(x0, q.x), x1 = std::max(x1, q.x), y0 = std::min(y0, q.y), y1 = std::max(y1, q.y);
        return std::array<long long, 4>{x0, x1, y0, y1};
    };
    auto x = box(a), y = box(b);
    if (x[0] <= y[1] && y[0] <= x[1] && x[2] <= y[3] && y[2] <= x[3]) c.nontrivial();
    c.label(W[want + 1]);
}
