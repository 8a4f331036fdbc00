#include "pbt.h"
#include <array>
#include "cmmcore/vec.h"
#include "cmmcore/aabb.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C21",
    "two or three boxes with lattice corners (touching, nested, equal, flat, single points) or real corners of size 1e-3..1e6, a list of points and probe points placed on and around their corners; every operation is compared with its definition on corner coordinates. "
    "non-trivial: two boxes that both have a positive volume",
    7500000, 75000000, 10};

struct B {
    std::array<double, 3> lo, hi;
};
static AABB box(const B &b) { return AABB(vec3(b.lo[0], b.lo[1], b.lo[2]), vec3(b.hi[0], b.hi[1], b.hi[2])); }
static bool same(const AABB &a, const B &b) {
    for (int k = 0; k < 3; ++k) if (a.min[k] != b.lo[k] || a.max[k] != b.hi[k]) return false;
    return true;
}
static std::string show(const AABB &a) { return pbt::str("[", a.min.x, ",", a.min.y, ",", a.min.z, " .. ", a.max.x, ",", a.max.y, ",", a.max.z, "]"); }

void property(pbt::Src &s, pbt::Ctx &c) {
    int kind = (int) s.below(3);
    double m = kind < 2 ? 1 : std::vector<double>{1, 1000, 1e-3, 1e6}[s.below(4)];
    auto num = [&] { return kind == 0 ? (double) s.zint(3) : kind == 1 ? s.zint(20) / 4.0 : (2 * s.unit() - 1) * m; };
    auto gen = [&] {
        B b;
        for (int k = 0; k < 3; ++k) {
            double x = num(), y = s.chance(1, 6) ? x : num();
            b.lo[k] = std::min(x, y);
            b.hi[k] = std::max(x, y);
        }
        return b;
    };
    B a = gen(), b = gen();
    if (s.chance(1, 4)) {   // share a face, an edge, a corner
        for (int k = 0; k < 3; ++k)
            if (s.flag()) {
                double w = b.hi[k] - b.lo[k];
                b.lo[k] = a.hi[k];
                b.hi[k] = b.lo[k] + w;
            }
    }
    AABB x = box(a), y = box(b);
    c.show([&](auto &o) { o << show(x) << " " << show(y); });
    // intersection
    bool meet = true;
    B in, un;
    for (int k = 0; k < 3; ++k) {
        in.lo[k] = std::max(a.lo[k], b.lo[k]);
        in.hi[k] = std::min(a.hi[k], b.hi[k]);
        un.lo[k] = std::min(a.lo[k], b.lo[k]);
        un.hi[k] = std::max(a.hi[k], b.hi[k]);
        if (in.lo[k] > in.hi[k]) meet = false;
    }
    const AABB &cx = x, &cy = y;
    PBT_CHECK(cx.intersects(cy) == meet, show(x), " and ", show(y), meet ? " meet" : " do not meet");
    PBT_CHECK(cy.intersects(cx) == meet, "intersects is not symmetric");
    PBT_CHECK(cx.intersects(cx), "a box does not meet itself");
    AABB r;
    PBT_CHECK(cx.intersection(cy, r) == meet, "intersection disagrees with intersects");
    if (meet) PBT_CHECK(same(r, in), "intersection of ", show(x), " and ", show(y), " is ", show(r));
    AABB r2;
    PBT_CHECK(cy.intersection(cx, r2) == meet && (!meet || same(r2, in)), "intersection is not symmetric");
    // union
    AABB u = cx.merge(cy);
    PBT_CHECK(same(u, un), "union of ", show(x), " and ", show(y), " is ", show(u));
    PBT_CHECK(same(cy.merge(cx), un), "union is not symmetric");
    AABB none;
    PBT_CHECK(same(none.merge(cx), a) && same(cx.merge(none), a), "the empty box is not neutral for unions");
    PBT_CHECK(!none.intersects(cx) && !cx.intersects(none), "the empty box meets a box");
    PBT_CHECK(none.infinity() && !cx.infinity() && !u.infinity(), "only the empty box is reported as empty");
    // volume
    long double v = 1;
    for (int k = 0; k < 3; ++k) v *= (long double) a.hi[k] - a.lo[k];
    PBT_CHECK(std::fabs(cx.volume() - v) <= 1e-14L * v, "volume ", cx.volume(), " instead of ", (double) v);
    PBT_CHECK(same(x, a) && same(y, b), "a query changed its operands");
    // expansion and construction from points
    std::vector<std::array<double, 3>> pts;
    int n = 1 + (int) s.below(6);
    for (int i = 0; i < n; ++i) pts.push_back({num(), num(), num()});
    B e = a, h{pts[0], pts[0]};
    AABB ex = x;
    std::vector<vec3> pv;
    for (auto &p: pts) {
        for (int k = 0; k < 3; ++k) {
            e.lo[k] = std::min(e.lo[k], p[k]);
            e.hi[k] = std::max(e.hi[k], p[k]);
            h.lo[k] = std::min(h.lo[k], p[k]);
            h.hi[k] = std::max(h.hi[k], p[k]);
        }
        ex.expand(vec3(p[0], p[1], p[2]));
        pv.emplace_back(p[0], p[1], p[2]);
        PBT_CHECK(same(ex, e), "expanding gives ", show(ex));
    }
    PBT_CHECK(same(AABB(pv), h), "box of points is ", show(AABB(pv)));
    AABB grown;
    for (auto &p: pv) grown.expand(p);
    PBT_CHECK(same(grown, h), "growing the empty box gives ", show(grown));
    AABB copy = ex, assigned;
    assigned = ex;
    PBT_CHECK(same(copy, e) && same(assigned, e), "copies differ");
    bool solid = true;
    for (int k = 0; k < 3; ++k) solid = solid && a.hi[k] > a.lo[k] && b.hi[k] > b.lo[k];
    if (solid) c.nontrivial();
    bool touch = false;
    for (int k = 0; k < 3; ++k) touch = touch || in.lo[k] == in.hi[k];
    c.label(!meet ? "apart" : touch ? "touching" : "overlapping");
}
