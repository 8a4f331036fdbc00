#include "bezpatch.h"
#include "geo.h"
#include "cmmcore/gauss_map.h"
using namespace cmmcore;
using ref::ld;
using ref::P3;
const pbt::Spec SPEC = {"C34",
    "polynomial Bezier patches of degree 1..4 (their Gauss maps have degree up to the library limit of 8; wild, bumpy and nearly flat ones, several domains): the Gauss map evaluated against the cross product of the reference partial derivatives, for the class, the function and the four quarters made by subdivision. Pairs of patches, independent or related (moved copies, copies with reversed orientation, patches that share one corner's tangent plane), for the separability verdicts: a positive verdict is refuted by two sampled normals that are parallel or opposite, or by enumerating planes through the centre over the control normals (up to 24 of them); clearly separated maps must be recognised. "
    "non-trivial: a patch with a normal that varies by more than 0.1 radians, or a pair of related patches",
    100000, 1000000, 8};

static P3 normal(const ref::Surface &R, ld u, ld v) { return ref::cross(R.du(u, v), R.dv(u, v)); }
static void check_map(pbt::Src &s, const bz::Patch &pa, const NURBSSurface &g, double u0, double u1, double v0, double v1, const char *what) {
    auto R = pa.ref();
    ld sc = pa.scale();
    // size of the partial derivatives bounds the rounding of the product
    ld du = 0, dv = 0;
    for (int i = 0; i <= pa.p; ++i)
        for (int j = 0; j <= pa.q; ++j)
            for (int k = 0; k < 3; ++k) {
                if (i) du = std::max(du, fabsl((ld) pa.P[i][j][k] - pa.P[i - 1][j][k]) * pa.p);
                if (j) dv = std::max(dv, fabsl((ld) pa.P[i][j][k] - pa.P[i][j - 1][k]) * pa.q);
            }
    (void) sc;
    // conversion through monomials amplifies by the size of the coefficients, at most 3^degree per direction
    ld tol = 1e-13L * du * dv * powl(3, 2 * (pa.p + pa.q)) + 1e-300L;
    for (int i = 0; i < 4; ++i) {
        double a = s.below(4) ? s.unit() : (double) s.below(2), b = s.below(4) ? s.unit() : (double) s.below(2);
        vec3 n;
        double gu = g._interval[0][0] + a * (g._interval[0][1] - g._interval[0][0]), gv = g._interval[1][0] + b * (g._interval[1][1] - g._interval[1][0]);
        g.evaluate(gu, gv, n);
        P3 w = normal(R, u0 + (u1 - u0) * (ld) a, v0 + (v1 - v0) * (ld) b), h{n.x, n.y, n.z};
        ld l = ref::norm(w);
        if (l <= 1e3L * tol) continue;   // no direction to speak of
        ld hl = ref::norm(h);
        PBT_CHECK(hl > 0, what, ": the Gauss map vanishes at (", a, ",", b, ") where the normal is not zero");
        ld sine = ref::norm(ref::cross(w, h)) / (l * hl);
        PBT_CHECK(sine <= 4 * tol / l + 1e-12L, what, ": not parallel to the normal at (", a, ",", b, "), sine ", (double) sine);
        PBT_CHECK(ref::dot(w, h) > 0, what, ": opposite to the normal at (", a, ",", b, ")");
    }
}
void property(pbt::Src &s, pbt::Ctx &c) {
    int kind = (int) s.below(3);
    bool pairs = s.flag();
    auto A = bz::patch(s, pairs ? (s.flag() ? 1 : 3) : 4, kind);
    auto sa = A.surface();
    GaussMap ga(sa);
    if (!pairs) {
        c.show([&](auto &o) { o << A; });
        check_map(s, A, ga.surf, 0, 1, 0, 1, "class");
        check_map(s, A, gaussMap(sa), 0, 1, 0, 1, "function");
        PBT_CHECK(ga.pts.size() == ga.surf._size[0] * ga.surf._size[1] && ga.pts_inv.size() == ga.pts.size(), "number of control normals");
        auto f = ga.surf.control_points_flat3d();
        for (size_t i = 0; i < f.size(); ++i)
            for (int k = 0; k < 3; ++k) PBT_CHECK(ga.pts[i][k] == f[i][k] && ga.pts_inv[i][k] == -f[i][k], "control normal ", i);
        GaussMap q[4];
        if (s.chance(1, 3)) {   // into maps that were used before
            auto B = s.flag() ? bz::patch(s, 4, kind) : A;
            for (auto &r: B.P) for (auto &x: r) x[0] += (double) s.zint(3), x[2] *= -2;
            auto sb = B.surface();
            GaussMap gb(sb);
            gb.subdivide(q[0], q[1], q[2], q[3]);
            c.label("maps used before");
        }
        ga.subdivide(q[0], q[1], q[2], q[3]);
        for (int i = 0; i < 4; ++i) {
            double u0 = i / 2 * 0.5, v0 = i % 2 * 0.5;
            check_map(s, A, q[i].surf, u0, u0 + 0.5, v0, v0 + 0.5, "quarter");
            auto f = q[i].surf.control_points_flat3d();
            PBT_CHECK(q[i].pts.size() == f.size() && q[i].pts_inv.size() == f.size(), "number of control normals of a quarter");
            for (size_t j = 0; j < f.size(); ++j)
                for (int k = 0; k < 3; ++k) PBT_CHECK(q[i].pts[j][k] == f[j][k] && q[i].pts_inv[j][k] == -f[j][k], "control normal ", j, " of quarter ", i);
        }
        auto R = A.ref();
        P3 a = normal(R, 0, 0), b = normal(R, 1, 1);
        if (ref::norm(ref::cross(a, b)) > 0.1L * ref::norm(a) * ref::norm(b)) c.nontrivial();
        return;
    }
    bz::Patch B;
    int rel = (int) s.below(4);
    bool shares = false;
    if (rel == 0) B = bz::patch(s, s.flag() ? 1 : 3, kind);
    else {
        B = A;
        c.nontrivial();
        int dx = s.zint(4), dy = s.zint(4), dz = s.zint(4);
        for (auto &r: B.P) for (auto &q: r) q[0] += dx, q[1] += dy, q[2] += dz;
        if (rel == 2) for (auto &r: B.P) std::reverse(r.begin(), r.end());
        if (rel == 3) {   // keep the tangent plane of one corner only
            for (int i = 0; i <= B.p; ++i)
                for (int j = 0; j <= B.q; ++j)
                    if (i + j > 1) for (double &x: B.P[i][j]) x += A.scale() * s.coord(1);
            if (s.flag()) for (auto &r: B.P) std::reverse(r.begin(), r.end());
        }
        auto n = normal(A.ref(), 0, 0);
        shares = rel != 3 || ref::norm(n) > 1e-6L * A.scale() * A.scale();
    }
    static const char *names[] = {"independent", "moved copy", "reversed copy", "shared corner"};
    c.label(names[rel]);
    c.show([&](auto &o) { o << names[rel] << " " << A << " and " << B; });
    auto sb = B.surface();
    GaussMap gb(sb);
    auto GA = gaussMap(sa), GB = gaussMap(sb);
    bool v[4] = {ga.separabilityTest(gb), gb.separabilityTest(ga), gaussMapSeparability(GA, GB), gaussMapSeparability(GB, GA)};
    static const char *who[] = {"class", "class, exchanged", "function", "function, exchanged"};
    auto RA = A.ref(), RB = B.ref();
    // reference over the control normals
    auto unit = [](const vec3 &x) { geo::V y{x.x, x.y, x.z}; return y * (1 / geo::norm(y)); };
    ld m1 = -1, m2 = -1;
    bool known = false;
    if (ga.pts.size() + gb.pts.size() <= 24) {
        known = true;
        ld big = 0;
        for (auto *p: {&ga.pts, &gb.pts}) for (auto &x: *p) big = std::max<ld>(big, x.length());
        for (auto *p: {&ga.pts, &gb.pts}) for (auto &x: *p) known = known && x.length() > 1e-6L * big;
        if (known) {
            std::vector<geo::V> D1, D2;
            for (auto &x: ga.pts) D1.push_back(unit(x)), D2.push_back(unit(x));
            for (auto &x: gb.pts) D1.push_back(unit(x) * -1), D2.push_back(unit(x));
            auto r1 = geo::reference(D1, 1), r2 = geo::reference(D2, 1);
            m1 = r1.dist, m2 = r2.dist;
            // only an overlap of some depth is a safe refutation, only a margin of some width a safe confirmation
            bool overlap = r1.depth > 1e-6L || r2.depth > 1e-6L, apart = m1 > 1e-5L && m2 > 1e-5L;
            for (int i = 0; i < 4; ++i) {
                if (overlap) PBT_CHECK(!v[i], who[i], ": reported as separable although the control normals are not");
                if (apart) PBT_CHECK(v[i], who[i], ": not reported as separable although planes separate the control normals with margins ", (double) m1, " and ", (double) m2);
            }
            c.label(apart ? "apart" : overlap ? "overlapping" : "close call");
        }
    }
    for (int i = 0; i < 4; ++i) {
        if (!v[i]) continue;
        c.label("reported as separable");
        PBT_CHECK(!shares, who[i], ": reported as separable although the patches share a tangent plane");
        for (int k = 0; k < 12; ++k) {
            auto par = [&] { return s.below(3) ? (ld) s.unit() : (ld) s.below(2); };
            P3 a = normal(RA, par(), par()), b = normal(RB, par(), par());
            ld sine = ref::norm(ref::cross(a, b)), l = ref::norm(a) * ref::norm(b);
            if (l > 1e-9L * powl(A.scale() * B.scale(), 2)) PBT_CHECK(sine > 1e-9L * l, who[i], ": reported as separable, but two normals are parallel");
        }
    }
}
