#include "pbt.h"
#include <array>
#include <set>
#include "cmmcore/vec.h"
#include "cmmcore/bvh.hpp"
using namespace cmmcore;
const pbt::Spec SPEC = {"C22",
    "1 to 200 (rarely up to 2000) boxes (lattice, real, clustered, identical, flat, single points, nested, one huge) in any order, hierarchies built top-down and bottom-up, queried with boxes and points on and around them and traversed pairwise against a second hierarchy; every answer is compared with a scan over all objects. Copies of hierarchies are queried as well, also of a part assigned to the whole. "
    "non-trivial: at least 4 objects and a query that returns some but not all of them",
    120000, 1500000, 8};

struct Gen {
    int kind;
    double k = 1;
    double num(pbt::Src &s) const { return k * at(s); }
    double at(pbt::Src &s) const { return kind == 0 ? (double) s.zint(4) : kind == 1 ? s.zint(40) / 4.0 : s.real(-10, 10); }
    AABB box(pbt::Src &s) const {
        double l[3], h[3];
        int flat = (int) s.below(8);
        for (int k = 0; k < 3; ++k) {
            double x = num(s), w = flat == 1 ? 0 : flat == 2 && k == 1 ? 0 : kind == 0 ? k * (double) s.below(3) : std::fabs(num(s)) * (s.flag() ? 0.1 : 1);
            l[k] = x, h[k] = x + w;
        }
        if (flat == 3) for (int k = 0; k < 3; ++k) l[k] = -20 * this->k, h[k] = 20 * this->k;
        return AABB(vec3(l[0], l[1], l[2]), vec3(h[0], h[1], h[2]));
    }
};
static bool meets(const AABB &a, const AABB &b) {
    for (int k = 0; k < 3; ++k) if (std::max(a.min[k], b.min[k]) > std::min(a.max[k], b.max[k])) return false;
    return true;
}
static double overlap(const AABB &a, const AABB &b) {
    double v = 1;
    for (int k = 0; k < 3; ++k) v *= std::max(0.0, std::min(a.max[k], b.max[k]) - std::max(a.min[k], b.min[k]));
    return v;
}
static size_t walk(const BVHNode *n, std::multiset<const Object3D *> &seen) {
    if (!n) return 0;
    size_t k = 1;
    for (const BVHNode *ch: {n->left.get(), n->right.get()})
        if (ch) {
            for (int i = 0; i < 3; ++i)
                PBT_CHECK(n->bounding_box.min[i] <= ch->bounding_box.min[i] && n->bounding_box.max[i] >= ch->bounding_box.max[i], "a node's box does not contain its child's");
            k += walk(ch, seen);
        }
    if (n->object) {
        seen.insert(n->object);
        for (int i = 0; i < 3; ++i)
            PBT_CHECK(n->bounding_box.min[i] <= n->object->bounding_box.min[i] && n->bounding_box.max[i] >= n->object->bounding_box.max[i], "a leaf's box does not contain its object's");
    }
    return k;
}

void property(pbt::Src &s, pbt::Ctx &c) {
    auto make = [&](std::vector<Object3D> &o, int base) {
        Gen g{(int) s.below(3)};
        if (s.chance(1, 8)) g.k = std::ldexp(1.0, s.range(-30, 30));
        int n = 1 + (int) (s.chance(1, 3000) ? s.below(2000) : s.chance(1, 6) ? s.below(200) : s.flag() ? s.below(12) : s.below(40));
        bool same = s.chance(1, 16);
        for (int i = 0; i < n; ++i) {
            AABB b = i && same ? o[0].bounding_box : i && s.chance(1, 8) ? o[s.below(o.size())].bounding_box : g.box(s);
            if (base || i != 1) o.emplace_back(b, base + i);
            else {
                o.emplace_back(b);
                PBT_CHECK(o.back().id == 0, "an object without a number has the number ", o.back().id);
            }
        }
        return g;
    };
    std::vector<Object3D> o1, o2;
    Gen g = make(o1, 0);
    make(o2, 1000);
    std::vector<Object3D *> p1, p2;
    for (auto &o: o1) p1.push_back(&o);
    for (auto &o: o2) p2.push_back(&o);
    bool up = s.flag();
    c.show([&](auto &o) { o << (up ? "bottom-up" : "top-down") << " over " << o1.size() << " and " << o2.size() << " boxes"; for (size_t i = 0; i < std::min<size_t>(6, o1.size()); ++i) o << " " << output_aabb(o1[i].bounding_box); });
    auto v1 = p1, v2 = p2;
    auto t1 = build_bvh(v1, up), t2 = build_bvh(v2, s.flag());
    PBT_CHECK(t1 && t2, "no hierarchy was built");
    {
        std::multiset<Object3D *> a(p1.begin(), p1.end()), b(v1.begin(), v1.end());
        PBT_CHECK(a == b, "building changed the set of objects");
    }
    for (auto [t, p]: {std::pair{t1.get(), &p1}, std::pair{t2.get(), &p2}}) {
        std::multiset<const Object3D *> seen, want(p->begin(), p->end());
        walk(t, seen);
        PBT_CHECK(seen == want, "the hierarchy holds ", seen.size(), " objects of ", want.size());
    }
    BVHNode cp(*t1), as;
    as = *t2;
    if (s.flag()) as = *t1;
    else as = cp;
    // queries
    bool some = false;
    int nq = 1 + (int) s.below(4);
    for (int q = 0; q < nq; ++q) {
        AABB b = g.box(s);
        if (s.chance(1, 4)) b = s.of(o1).bounding_box;
        bool point = s.chance(1, 3);
        vec3 pt = s.flag() ? b.min : b.max;
        if (point) b = AABB(pt, pt);
        std::multiset<const Object3D *> want;
        for (auto &o: o1) if (meets(o.bounding_box, b)) want.insert(&o);
        for (const BVHNode *t: {(const BVHNode *) t1.get(), (const BVHNode *) &cp, (const BVHNode *) &as}) {
            std::vector<const Object3D *> r;
            if (point) contains_point(t, pt, r);
            else traverse_bvh(t, b, r);
            std::multiset<const Object3D *> got(r.begin(), r.end());
            PBT_CHECK(got == want, point ? "point" : "box", " query ", output_aabb(b), " returned ", got.size(), " objects, ", want.size(), " overlap",
                      t == t1.get() ? "" : " (on a copy of the hierarchy)");
        }
        some = some || (!want.empty() && want.size() < o1.size());
    }
    if (s.chance(1, 4)) {   // a hierarchy assigned to itself, and a part of it to the whole
        BVHNode part(*t1);
        part = *&part;
        bool right = s.flag();
        for (int depth = 0, n = 1 + (int) s.below(3); depth < n && part.left && part.right; ++depth) {
            BVHNode want(right ? *part.right : *part.left);
            part = right ? *part.right : *part.left;
            std::vector<const Object3D *> a, b;
            AABB all = want.bounding_box;
            traverse_bvh(&want, all, a);
            traverse_bvh(&part, all, b);
            PBT_CHECK(part.object == want.object && part.bounding_box.min == want.bounding_box.min && part.bounding_box.max == want.bounding_box.max, "a part of the hierarchy assigned to the whole has another root");
            PBT_CHECK(std::multiset<const Object3D *>(a.begin(), a.end()) == std::multiset<const Object3D *>(b.begin(), b.end()), "a part of the hierarchy assigned to the whole has ", b.size(), " objects of ", a.size());
        }
    }
    // pairwise
    std::multiset<std::pair<const Object3D *, const Object3D *>> want, big, got, got2;
    for (auto &a: o1)
        for (auto &b: o2)
            if (meets(a.bounding_box, b.bounding_box)) {
                want.insert({&a, &b});
                if (overlap(a.bounding_box, b.bounding_box) >= 1e-3) big.insert({&a, &b});
            }
    std::vector<std::pair<const BVHNode *, const BVHNode *>> r, r2;
    intersect_bvh_iterative(t1.get(), t2.get(), r);
    for (auto &[a, b]: r) got.insert({a->object, b->object});
    PBT_CHECK(got == want, "pairwise traversal returned ", got.size(), " pairs, ", want.size(), " overlap");
    intersect_bvh(t1.get(), t2.get(), r2);
    for (auto &[a, b]: r2) got2.insert({a->object, b->object});
    for (auto &p: got2) PBT_CHECK(want.count(p) && got2.count(p) == 1, "recursive traversal returned a pair twice or a pair that does not overlap");
    for (auto &p: big) PBT_CHECK(got2.count(p), "recursive traversal missed a pair that overlaps in a volume of ", overlap(p.first->bounding_box, p.second->bounding_box));
    // nothing to build from, nothing to look in
    if (s.chance(1, 8)) {
        std::vector<Object3D *> none;
        PBT_CHECK(!build_bvh(none, false) && !build_bvh(none, true), "a hierarchy was built from no objects");
        std::vector<const Object3D *> q;
        traverse_bvh(nullptr, o1[0].bounding_box, q);
        contains_point(nullptr, o1[0].bounding_box.min, q);
        std::vector<std::pair<const BVHNode *, const BVHNode *>> p;
        intersect_bvh(t1.get(), nullptr, p), intersect_bvh(nullptr, t1.get(), p);
        intersect_bvh_iterative(t1.get(), nullptr, p), intersect_bvh_iterative(nullptr, t1.get(), p);
        Object3D fresh;
        PBT_CHECK(fresh.id == 0 && fresh.bounding_box.infinity(), "a new object is not without extent");
        PBT_CHECK(q.empty() && p.empty(), "an empty hierarchy answers a query with objects");
    }
    // nodes assembled by hand
    auto l = std::make_unique<BVHNode>(o1[0].bounding_box, &o1[0]), rr = std::make_unique<BVHNode>(o2[0].bounding_box, &o2[0]);
    BVHNode root(o1[0].bounding_box.merge(o2[0].bounding_box));
    root.setLeft(l);
    root.setRight(rr);
    PBT_CHECK(root.left && root.left->object == &o1[0] && root.right && root.right->object == &o2[0], "children set by hand are not the node's children");
    if (o1.size() >= 4 && some) c.nontrivial();
    c.label(up ? "bottom-up" : "top-down");
    if (o1.size() > 40) c.label("more than 40 boxes");
}
