#include "plane2.h"
#include "cmmcore/vec.h"
#include "cmmcore/convexhull.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C24",
    "3 to 60 (sometimes up to 400) planar points, not all collinear: lattice points (many duplicates and collinear runs, compared exactly with a monotone-chain hull on integers), or real points of size 1..1000 (compared within 1e-12 of the size), at times scaled by a power of two from 2^-30 to 2^30; given in two orders with repetitions. "
    "non-trivial: some input point is not a hull vertex",
    600000, 12000000, 8};

// points on a line, one point, no points
static void degenerate(pbt::Src &s, pbt::Ctx &c) {
    int kind = (int) s.below(3), n = kind == 0 ? 0 : 1 + (int) s.below(12);
    double k = std::ldexp(1.0, s.range(-8, 8));
    p2::P o{s.zint(20), s.zint(20)}, d{s.zint(6), s.zint(6)};
    p2::Poly in;
    for (int i = 0; i < n; ++i) {
        int q = kind == 1 ? 0 : s.zint(8);
        in.push_back({o.x + d.x * q, o.y + d.y * q});
    }
    auto lo = n ? *std::min_element(in.begin(), in.end()) : o, hi = n ? *std::max_element(in.begin(), in.end()) : o;
    c.show([&](auto &o2) { o2 << "points on a line " << in << " scale " << k; });
    std::vector<vec2> q, h{vec2(7, 7)};
    for (auto &x: in) q.push_back(vec2(x.x * k, x.y * k));
    auto kept = q;
    auto r = convex_hull(q, h);
    PBT_CHECK(kept.size() == q.size() && std::equal(q.begin(), q.end(), kept.begin(), [](auto &a, auto &b) { return a.x == b.x && a.y == b.y; }), "the points were changed");
    c.label("on a line");
    if (n == 0) { PBT_CHECK(r == ConvexHullResult::EMPTY, "no points are not reported as nothing"); return; }
    bool one = lo == hi;
    PBT_CHECK(r == (one ? ConvexHullResult::POINT : ConvexHullResult::LINE), one ? "one point is not reported as a point" : "points on a line are not reported as a line");
    PBT_CHECK(h.size() == (one ? 1u : 2u), "the hull of ", one ? "one point" : "points on a line", " has ", h.size(), " points");
    for (auto e: {lo, hi}) PBT_CHECK(std::any_of(h.begin(), h.end(), [&](auto &v) { return v.x == e.x * k && v.y == e.y * k; }), "the hull misses an end of the line");
    c.nontrivial();
}

void property(pbt::Src &s, pbt::Ctx &c) {
    if (s.chance(1, 10)) return degenerate(s, c);
    bool dispatch = s.chance(1, 3);
    int n = 3 + (int) (s.flag() ? s.below(58) : s.below(8));
    if (s.chance(1, 40)) n = 100 + (int) s.below(301);
    bool lattice = !s.chance(1, 3);
    int m = std::vector<int>{2, 5, 30, 1000}[s.below(4)];
    double k = lattice ? std::vector<double>{1, 0.125, 16}[s.below(3)] : 1;
    // reals are multiples of 2^-20: exact arithmetic stays possible
    p2::Poly in;
    for (int i = 0; i < n; ++i) {
        if (lattice) in.push_back({s.zint(m), s.zint(m)});
        else in.push_back({(long long) std::llround((2 * s.unit() - 1) * m * 0x1p20), (long long) std::llround((2 * s.unit() - 1) * m * 0x1p20)});
        // points collinear with two earlier ones
        if (i > 2 && s.chance(1, 6)) {
            auto a = s.of(in), b = s.of(in);
            int q = s.zint(2);
            in.back() = {a.x + (b.x - a.x) * q, a.y + (b.y - a.y) * q};
        }
    }
    if (!lattice) k = 0x1p-20;
    if (s.chance(1, 8)) k = std::ldexp(k, s.range(-30, 30));
    auto want = p2::hull(in);
    if (want.size() < 3) return;
    if (!lattice) {
        long double area = 0;
        for (size_t i = 1; i + 1 < want.size(); ++i) area += (long double) p2::cross(want[0], want[i], want[i + 1]) * k * k;
        if (area < 1e-9L * m * m * k * k * 0x1p40L) return;
    }
    auto run = [&](const p2::Poly &v) {
        std::vector<vec2> q;
        for (auto &x: v) q.push_back(vec2(x.x * k, x.y * k));
        std::vector<vec2> h;
        if (dispatch) {
            auto kept = q;
            PBT_CHECK(convex_hull(q, h) == ConvexHullResult::FLAT, "points that are not on a line are not reported as flat");
            PBT_CHECK(std::equal(q.begin(), q.end(), kept.begin(), [](auto &a, auto &b) { return a.x == b.x && a.y == b.y; }), "the points were changed");
        } else h = convex_hull2d(q);
        p2::Poly r;
        for (auto &x: h) {
            p2::P y{std::llround(x.x / k), std::llround(x.y / k)};
            PBT_CHECK(y.x * k == x.x && y.y * k == x.y && std::find(in.begin(), in.end(), y) != in.end(), "hull vertex (", x.x, ",", x.y, ") is not an input point");
            r.push_back(y);
        }
        return r;
    };
    c.show([&](auto &o) { o << "points " << in << " scale " << k; });
    auto got = run(in);
    p2::Poly mixed = in;
    for (int i = 0, r = (int) s.below(4); i < r; ++i) mixed.push_back(s.of(in));
    for (size_t i = mixed.size(); i > 1; --i) std::swap(mixed[i - 1], mixed[s.below(i)]);
    auto got2 = run(mixed);
    auto judge = [&](const char *w, p2::Poly g) {
        if (lattice) {
            PBT_CHECK(!g.empty(), w, ": no hull for points that are not collinear");
            std::rotate(g.begin(), std::min_element(g.begin(), g.end()), g.end());
            PBT_CHECK(g == want, w, ": hull is ", pbt::str(g), " expected ", pbt::str(want));
            return;
        }
        size_t h = g.size();
        PBT_CHECK(h >= 3, w, ": no hull");
        auto sorted = g;
        std::sort(sorted.begin(), sorted.end());
        PBT_CHECK(std::unique(sorted.begin(), sorted.end()) == sorted.end(), w, ": a hull vertex is repeated");
        long double eps = 1e-12L * m * k * 0x1p20L;
        for (size_t i = 0; i < h; ++i) {
            auto a = g[i], b = g[(i + 1) % h], t = g[(i + 2) % h];
            PBT_CHECK(p2::cross(a, b, t) > 0, w, ": not a strict left turn at vertex ", (i + 1) % h);
            long double l = std::max(1e-12L * k, sqrtl((long double) (b.x - a.x) * (b.x - a.x) + (long double) (b.y - a.y) * (b.y - a.y)) * k);
            for (auto &q: in) PBT_CHECK((long double) p2::cross(a, b, q) * k * k / l >= -eps, w, ": point (", q.x * k, ",", q.y * k, ") is outside edge ", i);
        }
    };
    judge("hull", got);
    judge("hull of the same points reordered and repeated", got2);
    std::set<p2::P> d(in.begin(), in.end());
    if (d.size() > want.size()) c.nontrivial();
    c.label(lattice ? "lattice" : "real");
    if (d.size() < in.size()) c.label("duplicates");
}
