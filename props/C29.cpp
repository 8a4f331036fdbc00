#include "geo.h"
#include "cmmcore/vec.h"
#include "cmmcore/closest_point.h"
#include "cmmcore/gjk.h"
using namespace cmmcore;
using geo::V;
using geo::ld;
const pbt::Spec SPEC = {"C29",
    "an object (line by two points or by point and direction, segment, triangle; lattice, dyadic or real coordinates of size 0.01..1000, segments of no length included) and a query point anywhere, often placed above a chosen feature (vertex, edge, inside) of the object. "
    "non-trivial: the object is not degenerate and does not contain the query point",
    6000000, 60000000, 8};

static vec3 to(V v) { return vec3((double) v.x, (double) v.y, (double) v.z); }
static V of(const vec3 &v) { return {v.x, v.y, v.z}; }

void property(pbt::Src &s, pbt::Ctx &c) {
    geo::PointGen g(s);
    V a = g(s), b = g(s), t = g(s), p;
    int kind = (int) s.below(5);
    if (kind == 3 && s.chance(1, 10)) t = of(to(a + (b - a) * (ld) s.zint(3)));
    // place the query relative to the object, or anywhere
    if (s.flag()) {
        double k1 = s.zint(8) / 4.0, k2 = s.zint(8) / 4.0;
        V n = geo::cross(b - a, t - a);
        if (kind < 3) n = g(s);
        ld nl = geo::norm(n);
        p = a + (b - a) * k1;
        if (kind == 3) p = p + (t - a) * k2;
        if (nl > 0) p = p + n * ((s.flag() ? 0 : s.zint(8) / 4.0) * geo::norm(b - a) / nl);
        p = of(to(p));
    } else p = g(s);
    if (s.chance(1, 20)) p = V{};
    ld scale = 1e-30L;
    for (V v: {a, b, t, p}) scale = std::max(scale, geo::norm(v));
    c.show([&](auto &o) { o << "kind " << kind << " a " << a << " b " << b << " c " << t << " query " << p; });
    vec3 A = to(a), B = to(b), C = to(t), P = to(p), R, R2;
    auto same = [&](const char *w) { PBT_CHECK(R == R2, w, ": the two overloads differ"); };
    auto check = [&](const char *w, V want, V got, ld cond) {
        PBT_CHECK(std::isfinite((double) got.x) && std::isfinite((double) got.y) && std::isfinite((double) got.z), w, ": not finite");
        ld tol = 1e-13L * cond * scale;
        PBT_CHECK(geo::dist(want, got) <= tol, w, ": got ", got, " expected ", want, " (", (double) geo::dist(want, got), " apart)");
    };
    if (kind == 0 || kind == 1) {
        bool dirform = kind == 1;
        V d = dirform ? b : b - a;
        d = of(dirform ? B : to(b) - to(a));
        ld l = geo::norm(d);
        if (l < 1e-4L * scale) return;
        V want = geo::on_line(p, a, d);
        if (dirform) { closestPointOnRay(P, A, B, R); R2 = closestPointOnRay(P, A, B); }
        else { closestPointOnLine(P, A, B, R); R2 = closestPointOnLine(P, A, B); }
        same("line");
        check("line", want, of(R), 10 + 10 * scale / l);
        if (geo::dist(want, p) > 1e-9L * scale) c.nontrivial();
        c.label(dirform ? "line by direction" : "line");
    } else if (kind == 2) {
        V want = geo::on_segment(p, a, b);
        ld l = geo::dist(a, b);
        closestPointOnSegm(P, A, B, R);
        R2 = closestPointOnSegm(P, A, B);
        same("segment");
        PBT_CHECK(A == to(a) && B == to(b) && P == to(p), "the arguments were changed");
        if (l > 0 && l < 1e-4L * scale) return;
        check("segment", want, of(R), 10 + (l > 0 ? 10 * scale / l : 0));
        // the form that takes the origin as query
        V a0 = of(to(a - p)), b0 = of(to(b - p));
        if (geo::norm(a0 - b0) > 1e-4L * scale || (l == 0 && of(to(a0)).x == b0.x && a0.y == b0.y && a0.z == b0.z)) {
            V r = of(closestPointOnSegm(to(a0), to(b0)));
            check("segment from the origin", geo::on_segment(V{}, a0, b0), r, 10 + (l > 0 ? 10 * scale / l : 0));
        }
        if (l > 0 && geo::dist(want, p) > 1e-9L * scale) c.nontrivial();
        c.label(l == 0 ? "segment of no length" : geo::dist(want, a) == 0 || geo::dist(want, b) == 0 ? "segment end" : "segment inside");
    } else if (kind == 4) {
        // the point nearest to the origin on a simplex; on its surface if it is solid
        int n = 1 + (int) s.below(4);
        std::vector<V> q;
        for (V v: {a, b, t, g(s)}) if ((int) q.size() < n) q.push_back(of(to(v - p)));
        ld sc = 1e-30L, cond = 10;
        for (auto &v: q) sc = std::max(sc, geo::norm(v));
        ld want = 1e300L;
        auto tri = [&](V x, V y, V z) {
            ld e = std::max(std::max(geo::dist(x, y), geo::dist(y, z)), geo::dist(x, z)), ar = geo::norm(geo::cross(y - x, z - x));
            if (ar < 1e-3L * e * e || e < 1e-3L * sc) { cond = 0; return; }
            cond = std::max(cond, 100 * (e * e / ar) * (e * e / ar) * (1 + (sc / e) * (sc / e)));
            want = std::min(want, geo::norm(geo::on_triangle(V{}, x, y, z)));
        };
        if (n == 1) want = geo::norm(q[0]);
        else if (n == 2) {
            ld l = geo::dist(q[0], q[1]);
            if (l < 1e-4L * sc) return;
            cond = 10 + 10 * sc / l;
            want = geo::norm(geo::on_segment(V{}, q[0], q[1]));
        } else if (n == 3) tri(q[0], q[1], q[2]);
        else for (int k = 0; k < 4 && cond > 0; ++k) tri(q[k == 0 ? 1 : 0], q[k <= 1 ? 2 : 1], q[k <= 2 ? 3 : 2]);
        if (cond == 0) return;
        std::vector<vec3> sx;
        for (auto &v: q) sx.push_back(to(v));
        vec3 r = s.flag() ? closestPoint(sx) : closestPointOnSimplex(sx);
        PBT_CHECK(sx.size() == (size_t) n, "the simplex was changed");
        PBT_CHECK(std::fabs(geo::norm(of(r)) - want) <= 1e-13L * cond * sc, "nearest point of a simplex of ", n, " points: ", pbt::str(r), " at distance ", (double) geo::norm(of(r)), " expected ", (double) want);
        ld on = 1e300L;   // and it lies there
        if (n == 1) on = geo::dist(of(r), q[0]);
        else if (n == 2) on = geo::dist(of(r), geo::on_segment(of(r), q[0], q[1]));
        else if (n == 3) on = geo::dist(of(r), geo::on_triangle(of(r), q[0], q[1], q[2]));
        else for (int k = 0; k < 4; ++k) on = std::min(on, geo::dist(of(r), geo::on_triangle(of(r), q[k == 0 ? 1 : 0], q[k <= 1 ? 2 : 1], q[k <= 2 ? 3 : 2])));
        PBT_CHECK(on <= 1e-13L * cond * sc, "the nearest point of a simplex of ", n, " points is ", (double) on, " off it");
        if (n > 1 && want > 1e-9L * sc) c.nontrivial();
        c.label("simplex");
    } else {
        ld area = geo::norm(geo::cross(b - a, t - a));
        ld e = std::max(std::max(geo::dist(a, b), geo::dist(b, t)), geo::dist(a, t));
        bool thin = area == 0 && e > 1e-2L * scale && s.chance(1, 2);
        if (thin) {   // no area, exactly: the longest side
            V want = geo::on_segment(p, a, b);
            for (auto [x, y]: {std::pair{b, t}, std::pair{a, t}}) {
                V q = geo::on_segment(p, x, y);
                if (geo::dist(q, p) < geo::dist(want, p)) want = q;
            }
            vec3 r = closestPointOnTriangle(P, A, B, C);
            PBT_CHECK(std::fabs(geo::dist(of(r), p) - geo::dist(want, p)) <= 1e-7L * scale, "triangle without area: got ", pbt::str(r), " at ", (double) geo::dist(of(r), p), ", ", want, " is at ", (double) geo::dist(want, p));
            c.label("triangle without area");
            return;
        }
        if (area < 1e-3L * e * e || e < 1e-3L * scale) return;
        V want = geo::on_triangle(p, a, b, t);
        closestPointOnTriangle(P, A, B, C, R);
        R2 = closestPointOnTriangle(P, A, B, C);
        same("triangle");
        ld cond = 100 * (e * e / area) * (e * e / area) * (1 + (scale / e) * (scale / e));
        check("triangle", want, of(R), cond);
        V a0 = of(to(a - p)), b0 = of(to(b - p)), t0 = of(to(t - p));
        check("triangle from the origin", geo::on_triangle(V{}, a0, b0, t0), of(closestPointOnTriangle(to(a0), to(b0), to(t0))), cond);
        if (geo::dist(want, p) > 1e-9L * scale) c.nontrivial();
        bool v = geo::dist(want, a) == 0 || geo::dist(want, b) == 0 || geo::dist(want, t) == 0;
        bool ed = geo::dist(want, geo::on_segment(want, a, b)) < 1e-15L * scale || geo::dist(want, geo::on_segment(want, t, b)) < 1e-15L * scale || geo::dist(want, geo::on_segment(want, a, t)) < 1e-15L * scale;
        c.label(v ? "triangle vertex" : ed ? "triangle edge" : "triangle inside");
    }
}
