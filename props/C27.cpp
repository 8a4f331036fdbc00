#include "geo.h"
#include "cmmcore/vec.h"
#include "cmmcore/separability.h"
using namespace cmmcore;
using geo::V;
using geo::ld;
const pbt::Spec SPEC = {"C27",
    "pairs of sets of 1 to 8 (sometimes up to 30) directions (lattice directions, caps around random axes with apertures from a hair to more than a half sphere, great-circle arcs with a direction of the other set on the arc, common or opposite directions), given as vectors of any length. The margin of the best separating plane through the centre comes from enumerating the faces of the hull of one set and the opposites of the other. Sets in disjoint wedges about a coordinate axis must be found by the wedge test. The variant about a centre gets the same directions as offsets from that centre, with and without the centre itself. "
    "non-trivial: at least 2 directions in each set and margin away from both extremes (below 0.5)",
    640000, 6400000, 8};

// do the sets lie in disjoint wedges about a coordinate axis, both narrower than a half-plane, with something between them
static bool apart_about(int k, const std::vector<V> &A, const std::vector<V> &B) {
    const ld pi = acosl(-1.0L);
    ld start[2], width[2];
    for (int w = 0; w < 2; ++w) {
        std::vector<ld> t;
        for (auto v: w ? B : A) {
            v = v * (1 / geo::norm(v));
            ld y[3] = {v.x, v.y, v.z}, p = y[(k + 1) % 3], q = y[(k + 2) % 3];
            if (hypotl(p, q) < 1e-6L) return false;
            t.push_back(atan2l(q, p));
        }
        std::sort(t.begin(), t.end());
        ld gap = t[0] + 2 * pi - t.back();
        start[w] = t[0];
        for (size_t i = 1; i < t.size(); ++i) if (t[i] - t[i - 1] > gap) gap = t[i] - t[i - 1], start[w] = t[i];
        width[w] = 2 * pi - gap;
        if (width[w] > pi - 1e-6L) return false;
    }
    ld off = fmodl(start[1] - start[0] + 4 * pi, 2 * pi);
    return off > width[0] + 1e-6L && off + width[1] < 2 * pi - 1e-6L;
}

void property(pbt::Src &s, pbt::Ctx &c) {
    int kind = (int) s.below(4);
    static const char *names[] = {"lattice", "caps", "arc", "opposites"};
    auto unit = [](V v) { return v * (1 / geo::norm(v)); };
    auto dir = [&] {
        for (int i = 0; i < 10; ++i) {
            V v = kind == 0 ? V{(ld) s.zint(2), (ld) s.zint(2), (ld) s.zint(2)} : V{s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)};
            if (geo::norm(v) > 0.1) return v;
        }
        return V{0, 0, 1};
    };
    std::vector<V> A, B;
    int most = s.chance(1, 30) ? 30 : 8;
    int na = 1 + (int) s.below(most), nb = 1 + (int) s.below(most);
    if (kind == 0 || kind == 3) {
        for (int i = 0; i < na; ++i) A.push_back(dir());
        for (int i = 0; i < nb; ++i) B.push_back(dir());
        if (kind == 3) {
            V h = unit(dir());
            for (auto &v: A) if (geo::dot(v, h) < 0) v = v * -1;
            for (auto &v: B) if (geo::dot(v, h) > 0) v = v * -1;
            if (s.flag()) B[s.below(B.size())] = s.of(A) * (s.flag() ? 1 : -1);
        }
    } else {
        V a = unit(dir()), b = unit(dir());
        ld ra = std::vector<ld>{0.1L, 0.5L, 1, 1e-3L, 1e-6L, 2}[s.below(6)], rb = std::vector<ld>{0.1L, 0.5L, 1, 1e-3L, 1e-6L, 2}[s.below(6)];
        if (s.chance(1, 3)) b = unit(a + V{s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)} * 0.3L);
        auto cap = [&](V x, ld r, int n) {
            std::vector<V> o;
            for (int i = 0; i < n; ++i) o.push_back(x + V{s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)} * r);
            return o;
        };
        A = cap(a, ra, na);
        B = cap(b, rb, nb);
        if (kind == 2) {   // a direction of B inside (or just off) the arc or triangle of directions of A
            V v{};
            for (auto &x: A) v = v + unit(x) * (ld) s.below(3);
            if (geo::norm(v) > 0.01L) {
                v = unit(v);
                if (s.flag()) v = v + V{s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)} * std::vector<ld>{1e-3L, 0.05L, 0.3L}[s.below(3)];
                B[0] = v;
            }
        }
    }
    for (auto *P: {&A, &B})
        for (auto &v: *P) {
            if (geo::norm(v) < 1e-6L) v = {1, 0, 0};
            ld k = std::vector<ld>{1, 1, 100, 0.01L}[s.below(4)];
            if (s.flag()) v = unit(v);
            v = {(double) (v.x * k), (double) (v.y * k), (double) (v.z * k)};
        }
    c.show([&](auto &o) { o << names[kind] << " A:"; for (auto &p: A) o << " " << p; o << " B:"; for (auto &p: B) o << " " << p; });
    std::vector<V> D;
    for (auto &v: A) D.push_back(unit(v));
    for (auto &v: B) D.push_back(unit(v) * -1);
    auto ref = geo::reference(D, 1);
    ld margin = ref.dist;
    std::vector<vec3> a, b;
    for (auto &p: A) a.push_back(vec3((double) p.x, (double) p.y, (double) p.z));
    for (auto &p: B) b.push_back(vec3((double) p.x, (double) p.y, (double) p.z));
    bool common = false;
    for (auto &x: a) for (auto &y: b) common = common || (x.x == y.x && x.y == y.y && x.z == y.z);
    const bool exact = kind == 0 || common;   // nearly flat configurations are only judged by the depth of the overlap
    auto judge = [&](const char *what, bool r, bool complete, ld eps) {
        if (r && (exact || ref.depth > 1e-7L)) PBT_CHECK(margin > 0, what, ": reported as separable, but no plane through the centre separates the sets");
        if (complete && margin > eps) PBT_CHECK(r, what, ": not reported as separable although a plane separates them with margin ", (double) margin);
    };
    int about = -1;
    for (int k = 0; k < 3; ++k) if (apart_about(k, A, B)) about = k;
    if (about >= 0) c.label("apart about an axis");
    for (int w = 0; w < 2; ++w) {
        auto x = w ? b : a, y = w ? a : b;
        if (about >= 0) PBT_CHECK(SphericalAABBTest(x, y), "the wedge test misses sets in disjoint wedges about axis ", about);
        judge("separability test", SphericalSeparabilityTest(x, y), true, 1e-8L);
        judge("central projection test", SphericalCentralProjectionTest(x, y), true, 1e-8L);
        judge("wedge test", SphericalAABBTest(x, y), false, 0);
        SphericalAABB wx(x), wy(y);
        PBT_CHECK(wx.intersects(wy) != wx.separable(wy) && wx.separable(wy) == wy.separable(wx), "wedges both intersect and are separable, or neither, or it depends on their order");
        PBT_CHECK(wx.separable(wy) == SphericalAABBTest(x, y), "forms of the wedge test differ");
        // about a centre
        vec3 ctr(s.zint(3), s.zint(3), s.zint(3));
        bool shared = s.flag();
        for (auto &v: x) v = v + ctr;
        for (auto &v: y) v = v + ctr;
        if (shared) x.push_back(ctr), y.insert(y.begin(), ctr);
        bool r = SphericalCentralProjectionTest2(ctr, x, y);
        if (r && ref.depth > 1e-7L) PBT_CHECK(margin > 0, "reported as separable about a centre, but no plane through it separates the sets");
        if (margin > 1e-5L) PBT_CHECK(r, "not reported as separable about a centre although a plane separates them with margin ", (double) margin);
    }
    if (s.chance(1, 20)) {   // a vector of no length is on no side of any plane
        auto x = a, y = b;
        auto &z = s.flag() ? x : y;
        z.insert(z.begin() + s.below(z.size() + 1), vec3(0, 0, 0));
        PBT_CHECK(!SphericalSeparabilityTest(x, y), "sets with a vector of no length are reported as separable");
        PBT_CHECK(!SphericalCentralProjectionTest(x, y), "sets with a vector of no length are reported as separable by central projection");
        c.label("vector of no length");
    }
    c.label(margin > 1e-8L ? "separable" : margin > 0 ? "barely separable" : ref.depth > 1e-8L ? "overlapping" : "touching");
    if (SphericalAABBTest(a, b)) c.label("separated by wedges");
    if (A.size() >= 2 && B.size() >= 2 && margin < 0.5L && ref.depth < 0.5L) c.nontrivial();
}
