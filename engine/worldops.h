#pragma once
// A world of shared objects and a catalogue of operations that read or copy them.
#include "scene.h"
#include <functional>
#include <thread>
#include <atomic>
#include <unistd.h>
#include "cmmcore/ccx.h"
#include "cmmcore/csx.h"
#include "cmmcore/ssx.h"
#include "cmmcore/point_inversion.h"
#include "cmmcore/boundary_intersection.h"
#include "cmmcore/gauss_map.h"
#include "cmmcore/monomial.h"
#include "cmmcore/convexhull.h"
#include "cmmcore/gjk.h"
#include "cmmcore/separability.h"
#include "cmmcore/kdtree.h"
#include "cmmcore/bvh.hpp"
#include "cmmcore/polygon.h"
#include "cmmcore/polyline.h"
#include "cmmcore/plane.h"
#include "cmmcore/closest_point.h"
#include "cmmcore/numeric_utils.h"
#include "cmmcore/serialization.h"
#include "cmmcore/memoryview.h"
#include "cmmcore/minimize_scalar.h"
#include "cmmcore/newthon2.h"
#include "cmmcore/binom.h"
using namespace cmmcore;
using Bytes = std::string;
namespace {
void put(Bytes &b, double x) { b.append((const char *) &x, sizeof x); }
void put(Bytes &b, size_t x) { b.append((const char *) &x, sizeof x); }
void put(Bytes &b, int x) { put(b, (size_t) x); }
void put(Bytes &b, bool x) { put(b, (size_t) x); }
void put(Bytes &b, const vec3 &v) { put(b, v.x), put(b, v.y), put(b, v.z); }
void put(Bytes &b, const vec4 &v) { put(b, v.x), put(b, v.y), put(b, v.z), put(b, v.w); }
void put(Bytes &b, const vec2 &v) { put(b, v.x), put(b, v.y); }
void put(Bytes &b, const AABB &v) { put(b, v.min), put(b, v.max); }
void put(Bytes &b, const std::string &v) { put(b, v.size()), b += v; }
template<class T, size_t N> void put(Bytes &b, const std::array<T, N> &v);
template<class A, class B> void put(Bytes &b, const std::pair<A, B> &v);
template<class T> void put(Bytes &b, const std::vector<T> &v);
template<class T> void put(Bytes &b, const std::list<T> &v);
void put(Bytes &b, const NURBSCurve &k);
void put(Bytes &b, const NURBSSurface &k);
void put(Bytes &b, char c);
template<class T, size_t N> void put(Bytes &b, const std::array<T, N> &v) { for (auto &x: v) put(b, x); }
template<class A, class B> void put(Bytes &b, const std::pair<A, B> &v) { put(b, v.first), put(b, v.second); }
template<class T> void put(Bytes &b, const std::vector<T> &v) { put(b, v.size()); for (const auto &x: v) put(b, (const T &) x); }
template<class T> void put(Bytes &b, const std::list<T> &v) { put(b, v.size()); for (auto &x: v) put(b, x); }
void put(Bytes &b, char c) { b += c; }
void put(Bytes &b, const NURBSCurve &k) { put(b, k.control_points), put(b, k._degree), put(b, k.knots), put(b, k._periodic), put(b, k._interval), put(b, k._aabb), put(b, k._hull); }
void put(Bytes &b, const NURBSSurface &s) { put(b, s._control_points), put(b, s._degree), put(b, s._knots_u), put(b, s._knots_v), put(b, s._interval), put(b, s._size), put(b, s.aabb()); }
}

struct World {
    double h, tol;
    gen::SurfData sd[2];
    NURBSCurve k[3], x[2];
    NURBSSurface f[2], bez[2];
    std::vector<vec3> p, q;
    polygon2 g, g2;
    KDTree3D tree;
    std::vector<Object3D> obj;
    std::unique_ptr<BVHNode> bvh;
    std::vector<double> data;
    std::vector<Segment> seg;
    Bytes state() const {
        Bytes b;
        for (auto &c: k) put(b, c);
        for (auto &c: x) put(b, c);
        for (auto &x: f) put(b, x);
        for (auto &x: bez) put(b, x);
        put(b, p), put(b, q), put(b, g), put(b, g2), put(b, data);
        for (auto &o: obj) put(b, o.bounding_box);
        for (auto &s: seg) put(b, s.p1), put(b, s.p2);
        put(b, tree.size());
        return b;
    }
};
using Op = std::function<Bytes(const World &)>;
static const char *NAMES[] = {"evaluate a curve", "derivatives of a curve", "length", "split a curve", "insert a knot into a copy", "decompose a curve", "derivative curve",
    "evaluate a surface", "partial derivatives", "normal", "split a surface", "isocurve", "decompose a surface", "derivative surface", "insert knots into a surface copy",
    "ccx", "csx", "ssx", "boundary intersections", "invert a point on a curve", "invert a point on a surface", "Gauss map", "monomial form",
    "convex hull", "convex hull in the plane", "separation", "GJK", "spherical separation", "k-d tree queries", "box queries", "polygons", "polylines", "planes and distances",
    "serialise", "STEP", "array view", "minimise", "Newton", "join", "binomials"};
static const int KINDS = sizeof NAMES / sizeof *NAMES;
static bool expensive(int k) { return k >= 15 && k <= 18; }

static Op make(int kind, pbt::Src &s, const World &w) {
    int ci = (int) s.below(3), si = (int) s.below(2);
    double a = s.unit(), b = s.unit();
    int n = 1 + (int) s.below(4);
    auto at = [](const std::array<double, 2> &d, double x) { return d[0] + (d[1] - d[0]) * x; };
    switch (kind) {
        case 0: return [=](const World &w) { Bytes r; for (int i = 0; i < n; ++i) { vec3 x; w.k[ci].evaluate(at(w.k[ci].interval(), std::fmod(a + i * b, 1)), x); put(r, x), put(r, w.k[ci](at(w.k[ci].interval(), a))); } return r; };
        case 1: return [=](const World &w) { Bytes r; std::vector<vec3> d(n + 1); double t = at(w.k[ci].interval(), 0.01 + 0.98 * a); w.k[ci].derivative(t, d, n + 1); put(r, d); vec3 x; w.k[ci].derivative(t, x), put(r, x); w.k[ci].derivative_fdm(t, x), put(r, x); w.k[ci].second_derivative_fdm(t, x), put(r, x); return r; };
        case 2: return [=](const World &w) { Bytes r; auto &k = w.k[ci]; put(r, k.length(at(k.interval(), std::min(a, b)), at(k.interval(), std::max(a, b)), 1e-3 * w.h)); return r; };
        case 3: return [=](const World &w) { Bytes r; auto pr = w.k[ci].split(at(w.k[ci].interval(), 0.01 + 0.98 * a), n & 1); put(r, pr); return r; };
        case 4: return [=](const World &w) { Bytes r; NURBSCurve c(w.k[ci]); c.insert_knot(at(c.interval(), 0.05 + 0.9 * a), 1); NURBSCurve d; d = c; d.insert_knot(at(c.interval(), 0.04 + 0.9 * b), 1); put(r, c), put(r, d); return r; };
        case 5: return [=](const World &w) { Bytes r; std::vector<NURBSCurve> v; w.k[ci].decompose(v); put(r, v); return r; };
        case 6: return [=](const World &w) { Bytes r; put(r, w.k[ci].get_derivative()), put(r, w.k[ci].get_control_points3d()); return r; };
        case 7: return [=](const World &w) { Bytes r; auto I = w.f[si].interval(); for (int i = 0; i < n; ++i) { vec3 x; w.f[si].evaluate(at(I[0], std::fmod(a + i * b, 1)), at(I[1], b), x); put(r, x); } put(r, w.f[si].control_points_flat3d()); return r; };
        case 8: return [=](const World &w) { Bytes r; auto I = w.f[si].interval(); vec3 x; double u = at(I[0], 0.1 + 0.8 * a), v = at(I[1], 0.1 + 0.8 * b); w.f[si].derivative_u(u, v, x), put(r, x), w.f[si].derivative_v(u, v, x), put(r, x); w.f[si].partial_derivative(u, v, n % 3, n / 2, x), put(r, x); return r; };
        case 9: return [=](const World &w) { Bytes r; auto I = w.f[si].interval(); vec3 x; w.f[si].normal(at(I[0], 0.1 + 0.8 * a), at(I[1], 0.1 + 0.8 * b), x), put(r, x); return r; };
        case 10: return [=](const World &w) { Bytes r; auto I = w.f[si].interval(); put(r, n & 1 ? w.f[si].split_surface_u(at(I[0], 0.05 + 0.9 * a)) : w.f[si].split_surface_v(at(I[1], 0.05 + 0.9 * a))); return r; };
        case 11: return [=](const World &w) { Bytes r; auto I = w.f[si].interval(); put(r, w.f[si].extract_isocurve(at(I[n & 1], a), n & 1 ? SurfaceParameter::V : SurfaceParameter::U)); put(r, extract_isocurve(w.f[si], at(I[n & 1], b), n & 1 ? SurfaceParameter::V : SurfaceParameter::U)); std::array<NURBSCurve, 4> e; w.f[si].extract_surface_boundaries(e); for (auto &x: e) put(r, x); return r; };
        case 12: return [=](const World &w) { Bytes r; std::vector<NURBSSurface> v; w.f[si].decompose(v); put(r, v); return r; };
        case 13: return [=](const World &w) { Bytes r; put(r, w.f[si].get_derivative(n & 1)); return r; };
        case 14: return [=](const World &w) { Bytes r; NURBSSurface c(w.f[si]); auto I = c.interval(); c.insert_knot(at(I[0], 0.05 + 0.9 * a), 0, 1); c.insert_knot(at(I[1], 0.05 + 0.9 * b), 1, 1); put(r, c); NURBSSurface x11, x12, x21, x22; c.subdivide(x11, x12, x21, x22); put(r, x11), put(r, x22); return r; };
        case 15: return [=](const World &w) { Bytes r; NURBSCurve x(w.x[0]), y(w.x[1]); std::vector<std::pair<double, double>> R; ccx(x, y, w.tol, R); put(r, R); return r; };
        case 16: return [=](const World &w) { Bytes r; CSXIntersections R; csx(w.x[1 - si], w.f[si], R, w.tol); put(r, R.size()); for (auto &[t, p, q]: R) { put(r, (int) t), put(r, p), put(r, q); } return r; };
        case 17: return [=](const World &w) { Bytes r; NURBSSurface x(w.f[0]), y(w.f[1]); Intersection R; findStartIntersectionPoints(x, y, w.tol, R); put(r, R.patches.size()); for (auto &p: R.patches) put(r, p.start.surface1_params), put(r, p.end.surface2_params), put(r, p.start.point), put(r, p.end.point); for (auto &p: R.points) put(r, p.xyz), put(r, p.uv1), put(r, p.uv2); return r; };
        case 18: return [=](const World &w) { Bytes r; std::vector<IntersectionPoint> R; find_boundary_intersections(w.f[0], w.f[1], R, w.tol); put(r, R.size()); for (auto &p: R) put(r, p.surface1_params), put(r, p.surface2_params), put(r, p.point); return r; };
        case 19: return [=](const World &w) { Bytes r; put(r, point_inversion_curve(w.k[ci], w.p[0], at(w.k[ci].interval(), a), 1e-9 * w.h, 1e-9)); return r; };
        case 20: return [=](const World &w) { Bytes r; auto I = w.f[si].interval(); put(r, point_inversion_surface(w.f[si], w.p[0], at(I[0], a), at(I[1], b), 1e-9 * w.h, 1e-9)); return r; };
        case 21: return [=](const World &w) { Bytes r; auto x = gaussMap(w.bez[0]), y = gaussMap(w.bez[1]); put(r, x), put(r, gaussMapSeparability(x, y)); NURBSSurface c(w.bez[si]); GaussMap m(c); put(r, m.surf); return r; };
        case 22: return [=](const World &w) { Bytes r; Monomial2D m(w.bez[si]), d; put(r, m.coefficients); m.computePartialDerivative(SurfaceParameter::U, d); put(r, d.coefficients); Monomial2D c; c = m; NURBSSurface o; c.to_bezier(o); put(r, o); return r; };
        case 23: return [=](const World &w) { Bytes r; std::vector<vec3> H; put(r, (int) convex_hull(w.p, H)), put(r, H); H.clear(); convex_hull3d(w.q, H), put(r, H); return r; };
        case 24: return [=](const World &w) { Bytes r; std::vector<vec2> v; for (auto &x: w.p) v.push_back(vec2(x.x, x.y)); put(r, convex_hull2d(v)); return r; };
        case 25: return [=](const World &w) { Bytes r; put(r, AABBTest(w.p, w.q)), put(r, SAT3D(w.p, w.q)), put(r, SAT2D(w.g, w.g2)); return r; };
        case 26: return [=](const World &w) { Bytes r; std::vector<vec3> sx; vec3 d; put(r, GJK(w.p, w.q, sx, d)), put(r, d); return r; };
        case 27: return [=](const World &w) { Bytes r; auto x = w.p, y = w.q; put(r, SphericalSeparabilityTest(x, y)), put(r, SphericalAABBTest(x, y)), put(r, SphericalCentralProjectionTest(x, y)); return r; };
        case 28: return [=](const World &w) { Bytes r; vec3 lo(w.q[0]), hi(w.q[1]); for (int i = 0; i < 3; ++i) if (lo[i] > hi[i]) std::swap(lo[i], hi[i]); put(r, w.tree.rangeSearch(lo, hi)), put(r, w.tree.nearestNeighbor(w.q[0])), put(r, w.tree.size()); return r; };
        case 29: return [=](const World &w) { Bytes r; std::vector<const Object3D *> R; AABB b = w.obj[n % w.obj.size()].bounding_box; traverse_bvh((const BVHNode *) w.bvh.get(), b, R); for (auto *o: R) put(r, (size_t) (o - w.obj.data())); R.clear(); contains_point((const BVHNode *) w.bvh.get(), b.min, R); put(r, R.size()); std::vector<std::pair<const BVHNode *, const BVHNode *>> Q; intersect_bvh_iterative(w.bvh.get(), w.bvh.get(), Q); put(r, Q.size()); Q.clear(); intersect_bvh(w.bvh.get(), w.bvh.get(), Q); put(r, Q.size()); BVHNode c(*w.bvh); R.clear(); traverse_bvh((const BVHNode *) &c, b, R); put(r, R.size()); return r; };
        case 30: return [=](const World &w) { Bytes r; put(r, (int) polygonRelationship2D(w.g, w.g2)); put(r, pointInPolygon2D(w.g, w.g2[0])); std::vector<vec2> N; polygonNormals(w.g, N, n & 1), put(r, N); return r; };
        case 31: return [=](const World &w) { Bytes r; auto sg = w.seg; std::vector<std::list<vec3>> o; assemble_polylines(sg, o); put(r, o); return r; };
        case 32: return [=](const World &w) { Bytes r; vec3 x; auto &p = w.p, &q = w.q; vec4 e; plane_eq_from_pts(p[0], p[1], p[2], e); put(r, e), put(r, planeSignedDistance(q[0], e)), put(r, isPtsCoplanar(p, 1e-9)); closestPointOnTriangle(p[0], p[1], p[2], q[0], x), put(r, x); return r; };
        case 33: return [=](const World &w) { Bytes r; std::vector<NURBSCurve> v{w.k[0], w.k[1], w.k[2]}; auto b = serializeNURBSCurves(v); put(r, b); put(r, deserializeNURBSCurves(b)); return r; };
        case 34: return [=](const World &w) { Bytes r; std::ostringstream o; int id = 1; w.f[si].toSTEP(o, id), w.k[ci].toSTEP(o, id); put(r, o.str()), put(r, id); return r; };
        case 35: return [=](const World &w) { Bytes r; MemoryView<double> m(const_cast<double *>(w.data.data()), {3, 4}); auto t = m.slice({Slice(0, 3, 2), Slice(3, 0, -1)}); for (size_t i = 0; i < 2; ++i) put(r, t({i, (size_t) 1})); put(r, t.serialize()); return r; };
        case 36: return [=](const World &w) { Bytes r; OptimizeResult<double> R; minimize_scalar_bounded<double>([&](double x) { return (x - a) * (x - a) + b; }, {-1., 2.}, R, 1e-8, 100); put(r, R.x), put(r, R.fun), put(r, R.nfev); return r; };
        case 37: return [=](const World &w) { Bytes r; auto x = newtonsMethod<2>([&](const Vector<2> &v) { return (v[0] - a) * (v[0] - a) + 2 * (v[1] - b) * (v[1] - b) + 1; }, Vector<2>{0.3, 0.2}, 1e-8); put(r, x[0]), put(r, x[1]); return r; };
        case 38: return [=](const World &w) { Bytes r; NURBSCurve x(w.k[2]); x.normalize_knots(); x.make_periodic(); put(r, x); put(r, x.is_periodic()); return r; };
        default: return [=](const World &w) { Bytes r; for (int i = 0; i <= 30; ++i) put(r, (double) binomial_coefficient(30, i)); std::vector<double> u; auto kn = w.k[ci].knots; uniqueKnots(kn, u); put(r, u); Vec3Set S; for (auto &x: w.p) S.insert(x); put(r, S.size()); return r; };
    }
}

static void build_world(pbt::Src &s, World &w) {
    w.h = 1;
    scene::PatchOpt po;
    po.pmax = 2 + (int) s.below(2), po.extra = 1, po.bend = 0.6;
    for (int i = 0; i < 2; ++i) w.sd[i] = scene::patch(s, po, w.h);
    {   // the second is the first, turned by a right angle about a tangent, or another patch turned so that they cross at right angles
        auto r = w.sd[0].ref();
        double u = 0.5 * (r.U.front() + r.U.back()), v = 0.5 * (r.V.front() + r.V.back());
        auto t = r.du(u, v), n = scene::normal(r, u, v), o = r.eval(u, v);
        t = ref::mul(t, 1 / ref::norm(t));
        auto e = ref::cross(n, t);
        w.sd[1] = w.sd[0];
        double a = 0.2 * s.coord(1), b = 0.2 * s.coord(1);
        for (auto &row: w.sd[1].P)
            for (auto &q: row) {
                ref::P3 d = ref::sub({q[0] / q[3], q[1] / q[3], q[2] / q[3]}, o);
                auto dot = [&](const ref::P3 &y) { return d[0] * y[0] + d[1] * y[1] + d[2] * y[2]; };
                auto A = dot(t) + a, B = -dot(n) + b, D = dot(e) + 0.1 * a;
                for (int i = 0; i < 3; ++i) q[i] = (double) ((o[i] + A * t[i] + B * e[i] + D * n[i]) * q[3]);
            }
        for (int i = 0; i < 2; ++i) w.f[i] = glue::surface(w.sd[i]);
        w.x[0] = w.f[0].extract_isocurve(u, SurfaceParameter::U);
        w.x[1] = w.f[1].extract_isocurve(v, SurfaceParameter::V);
    }
    po.bezier = true, po.allow_rational = false;
    for (int i = 0; i < 2; ++i) w.bez[i] = glue::surface(scene::patch(s, po, w.h));
    for (int i = 0; i < 3; ++i) {
        gen::CurveOpt o;
        o.wide = false;
        o.pmax = 4, o.extra = 3;
        w.k[i] = glue::curve(gen::curve(s, o));
    }
    w.tol = 1e-2;
    int np = 4 + (int) s.below(8);
    for (int i = 0; i < np; ++i) w.p.push_back(vec3(s.coord(3), s.coord(3), s.coord(3)));
    vec3 off(s.coord(4), s.coord(4), s.coord(4));
    for (int i = 0; i < np; ++i) w.q.push_back(vec3(s.coord(3), s.coord(3), s.coord(3)) + off);
    for (int i = 0; i < 5; ++i) {
        double t = i * 1.2566370614359172;
        w.g.push_back(vec2(cos(t), sin(t))), w.g2.push_back(vec2(cos(t) + 0.25 * off.x, sin(t) + 0.25 * off.y));
    }
    for (int i = 0; i < 12; ++i) w.data.push_back(s.coord(9));
    for (int i = 0; i + 1 < np; ++i) if (!s.chance(1, 4)) w.seg.push_back({w.p[i], w.p[i + 1]});
    if (w.seg.empty()) w.seg.push_back({w.p[0], w.p[1]});
    for (int i = 0; i < np; ++i) {
        vec3 e(s.unit(), s.unit(), s.unit());
        w.obj.emplace_back(AABB(w.p[i] - e, w.p[i] + e), i);
    }
    auto tp = w.p;
    w.tree.build(tp);
    std::vector<Object3D *> po2;
    for (auto &o: w.obj) po2.push_back(&o);
    w.bvh = build_bvh(po2, s.flag());
}
