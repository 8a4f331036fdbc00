#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C14",
    "surfaces of degrees 1..8 (rational or not, 3D or homogeneous input), then up to 6 operations out of insertion in u or v, split, subdivision, copy, move and derivative; after every step both boxes and the exported control points are compared with the projected control points, and sampled points must lie in the box. "
    "non-trivial: at least two operations or a rational surface",
    300000, 3000000, 8};

static void check(pbt::Src &s, const NURBSSurface &k, const char *op) {
    double lo[3], hi[3];
    for (int x = 0; x < 3; ++x) lo[x] = 1e300, hi[x] = -1e300;
    size_t n = k.shape()[0], m = k.shape()[1];
    PBT_CHECK(k._control_points.size() == n && k._control_points[0].size() == m, "grid size after ", op);
    auto f3 = k.control_points_flat3d();
    auto f4 = k.control_points_flat();
    auto g3 = k.control_points3d();
    std::vector<vec3> f3b(3);
    k.control_points_flat3d(f3b);
    PBT_CHECK(f3.size() == n * m && f4.size() == n * m && g3.size() == n && f3b.size() == n * m, "exported sizes after ", op);
    for (size_t i = 0; i < n; ++i) {
        PBT_CHECK(g3[i].size() == m, "exported row after ", op);
        for (size_t j = 0; j < m; ++j) {
            auto &q = k._control_points[i][j];
            double v[3] = {q.x / q.w, q.y / q.w, q.z / q.w};
            for (int x = 0; x < 3; ++x) lo[x] = std::min(lo[x], v[x]), hi[x] = std::max(hi[x], v[x]);
            auto same = [&](const vec3 &a) {
                return std::fabs(a.x - v[0]) <= 1e-13 * (1 + std::fabs(v[0])) && std::fabs(a.y - v[1]) <= 1e-13 * (1 + std::fabs(v[1])) && std::fabs(a.z - v[2]) <= 1e-13 * (1 + std::fabs(v[2]));
            };
            PBT_CHECK(same(f3[i * m + j]) && same(f3b[i * m + j]), "flat export of point ", i, ",", j, " after ", op);
            PBT_CHECK(same(g3[i][j]), "grid export of point ", i, ",", j, " after ", op);
            auto &h = f4[i * m + j];
            PBT_CHECK(h.x == q.x && h.y == q.y && h.z == q.z && h.w == q.w, "homogeneous export of point ", i, ",", j, " after ", op);
        }
    }
    auto box = [&](const AABB &a, const char *what) {
        double al[3] = {a.min.x, a.min.y, a.min.z}, ah[3] = {a.max.x, a.max.y, a.max.z};
        for (int x = 0; x < 3; ++x) {
            double t = 1e-12 * (1 + std::fabs(lo[x]) + std::fabs(hi[x]));
            PBT_CHECK(std::fabs(al[x] - lo[x]) <= t && std::fabs(ah[x] - hi[x]) <= t, what, " after ", op, ": axis ", x, " is [", al[x], ",", ah[x], "], control points span [", lo[x], ",", hi[x], "]");
        }
    };
    box(k.aabb(), "aabb()");
    NURBSSurface t = k;
    box(t.bbox(), "bbox()");
    for (int i = 0; i < 2; ++i) {
        double u = gen::param(s, k._knots_u), v = gen::param(s, k._knots_v);
        vec3 y;
        k.evaluate(u, v, y);
        double c[3] = {y.x, y.y, y.z};
        for (int x = 0; x < 3; ++x) {
            double tt = 1e-9 * (1 + std::fabs(lo[x]) + std::fabs(hi[x]));
            PBT_CHECK(c[x] >= lo[x] - tt && c[x] <= hi[x] + tt, "a point of the surface is outside the box after ", op);
        }
    }
}

void property(pbt::Src &s, pbt::Ctx &c) {
    gen::SurfOpt so;
    so.extra = 3;
    auto d = gen::surface(s, so);
    NURBSSurface k = glue::surface(d);
    if (s.chance(1, 6)) {
        std::vector<std::vector<vec3>> P;
        for (auto &r: d.P) {
            P.emplace_back();
            for (auto &q: r) P.back().push_back(vec3(q[0], q[1], q[2]));
        }
        k = NURBSSurface(P, {d.p, d.q}, d.U, d.V);
    }
    c.show([&](auto &o) { o << d << " ops:"; });
    check(s, k, "construction");
    int nops = (int) s.below(7), done = 0;
    for (int i = 0; i < nops; ++i) {
        const char *name = "";
        switch (s.below(6)) {
            case 0:
            case 1: {
                int dir = (int) s.below(2);
                name = dir ? "insertion in v" : "insertion in u";
                auto &kn = dir ? k._knots_v : k._knots_u;
                double t = gen::inside(s, kn, 0.05);
                int room = (dir ? d.q : d.p) - find_multiplicity(t, kn);
                if (room <= 0 || k.shape()[dir] > 14) continue;
                k.insert_knot(t, dir, s.range(1, room));
                break;
            }
            case 2: {
                int dir = (int) s.below(2);
                name = dir ? "split in v" : "split in u";
                auto iv = k.interval();
                if (iv[dir][1] - iv[dir][0] < 1e-3) continue;
                double t = iv[dir][0] + (iv[dir][1] - iv[dir][0]) * (0.1 + 0.8 * s.unit());
                auto pr = dir ? k.split_surface_v(t) : k.split_surface_u(t);
                check(s, pr.first, name);
                check(s, pr.second, name);
                k = s.flag() ? pr.first : pr.second;
                break;
            }
            case 3: {
                name = "subdivision";
                auto iv = k.interval();
                if (iv[0][1] - iv[0][0] < 1e-3 || iv[1][1] - iv[1][0] < 1e-3) continue;
                auto q = k.subdivide();
                for (auto &x: q) check(s, x, name);
                k = q[s.below(4)];
                break;
            }
            case 4: {
                name = "copy";
                NURBSSurface q(k);
                q.insert_knot(gen::inside(s, q._knots_u, 0.05), 0, 0);
                NURBSSurface w = std::move(q);
                check(s, w, "move");
                k = w;
                break;
            }
            default: {
                name = "bbox";
                (void) k.bbox();
            }
        }
        c.show([&](auto &o) { o << " " << name; });
        check(s, k, name);
        ++done;
    }
    if (done >= 2 || d.rational) c.nontrivial();
}
