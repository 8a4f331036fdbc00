#include "pbt.h"
#include <array>
#include <set>
#include "cmmcore/vec.h"
#include "cmmcore/kdtree.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C23",
    "histories of up to 25 operations on a k-d tree: build from 0..120 (rarely up to 3000) points, insert, range query, nearest neighbour, size; points on coarse lattices (many ties), on lines, equal, or real; queries on and around stored points. The reference is the plain list of points given so far. "
    "non-trivial: at least 8 points at some time and at least one range query with some but not all points",
    900000, 9000000, 8};

template<class T>
void try_copy(const T &t, size_t n) {   // a copy, if the type allows one, is a tree of its own
    if constexpr (std::is_copy_constructible_v<T>) {
        T u(t);
        u.insert(vec3(1, 2, 3));
        PBT_CHECK(t.size() == n && u.size() == n + 1, "a copy shares its points with the original");
    }
}
using P = std::array<double, 3>;
static P arr(const vec3 &v) { return {v.x, v.y, v.z}; }
static vec3 vec(const P &p) { return vec3(p[0], p[1], p[2]); }

void property(pbt::Src &s, pbt::Ctx &c) {
    int kind = (int) s.below(5);
    auto num = [&] { return kind == 0 ? (double) s.zint(1) : kind == 1 ? (double) s.zint(4) : kind == 4 ? s.zint(64) / 8.0 : s.real(-10, 10); };
    std::vector<P> model;
    auto point = [&]() -> P {
        if (!model.empty() && s.chance(1, 8)) return s.of(model);
        double a = num(), b = num(), d = num();
        if (kind == 3) return {a, 2 * a, 0};
        return {a, b, d};
    };
    KDTree3D tree;
    int ops = 1 + (int) s.below(25);
    size_t most = 0;
    bool some = false;
    for (int i = 0; i < ops && s.more(); ++i) {
        switch (s.pick({i == 0 ? 5 : 1, 4, 4, 4, 1})) {
            case 0: {
                int n = (int) (s.chance(1, 8000) ? s.below(3000) : s.chance(1, 4) ? s.below(120) : s.below(20));
                std::vector<vec3> v;
                model.clear();
                for (int k = 0; k < n; ++k) {
                    model.push_back(point());
                    v.push_back(vec(model.back()));
                }
                tree.build(v);
                std::multiset<P> a(model.begin(), model.end()), b;
                for (auto &q: v) b.insert(arr(q));
                PBT_CHECK(a == b, "building changed the caller's points beyond their order");
                c.show([&](auto &o) { o << "build " << n << "; "; });
                break;
            }
            case 1: {
                P p = point();
                tree.insert(vec(p));
                model.push_back(p);
                c.show([&](auto &o) { o << "insert (" << p[0] << "," << p[1] << "," << p[2] << "); "; });
                break;
            }
            case 2: {
                P a = point(), b = s.chance(1, 6) ? a : point();
                P lo, hi;
                for (int k = 0; k < 3; ++k) lo[k] = std::min(a[k], b[k]), hi[k] = std::max(a[k], b[k]);
                if (s.flag()) lo[s.below(3)] = -100;
                if (s.flag()) hi[s.below(3)] = 100;
                std::multiset<P> want, got;
                for (auto &p: model) if (p[0] >= lo[0] && p[0] <= hi[0] && p[1] >= lo[1] && p[1] <= hi[1] && p[2] >= lo[2] && p[2] <= hi[2]) want.insert(p);
                const auto &ct = tree;
                for (auto &v: ct.rangeSearch(vec(lo), vec(hi))) got.insert(arr(v));
                c.show([&](auto &o) { o << "range -> " << want.size() << "; "; });
                PBT_CHECK(got == want, "range query returned ", got.size(), " points, ", want.size(), " are in the range, of ", model.size());
                some = some || (!want.empty() && want.size() < model.size());
                break;
            }
            case 3: {
                P t = point();
                if (s.flag()) t = {num(), num(), num()};
                if (s.chance(1, 8)) t[s.below(3)] += s.flag() ? 1000 : 0.25;
                c.show([&](auto &o) { o << "nearest; "; });
                if (model.empty()) {
                    bool threw = false;
                    try { tree.nearestNeighbor(vec(t)); } catch (const std::runtime_error &) { threw = true; }
                    PBT_CHECK(threw, "the nearest neighbour in an empty tree is not rejected");
                    break;
                }
                auto d2 = [&](const P &p) { long double q = 0; for (int k = 0; k < 3; ++k) q += ((long double) p[k] - t[k]) * ((long double) p[k] - t[k]); return q; };
                const auto &ct = tree;
                P r = arr(ct.nearestNeighbor(vec(t)));
                long double best = 1e300L;
                bool member = false;
                for (auto &p: model) best = std::min(best, d2(p)), member = member || p == r;
                PBT_CHECK(member, "the nearest neighbour is not one of the points");
                PBT_CHECK(d2(r) <= best * (1 + 1e-13L), "the nearest neighbour is at squared distance ", (double) d2(r), ", a point is at ", (double) best);
                break;
            }
            default:
                PBT_CHECK(tree.empty() == model.empty(), "empty() is wrong for ", model.size(), " points");
                try_copy(tree, model.size());
        }
        PBT_CHECK(tree.size() == model.size(), "size is ", tree.size(), " after giving ", model.size(), " points");
        most = std::max(most, model.size());
    }
    if (most >= 8 && some) c.nontrivial();
    c.label(most == 0 ? "always empty" : most < 8 ? "under 8 points" : "8 points or more");
}
