#include "geo.h"
#include "cmmcore/vec.h"
#include "cmmcore/plane.h"
using namespace cmmcore;
using geo::V;
using geo::ld;
const pbt::Spec SPEC = {"C30",
    "planes given by coefficients, by a normal, by an origin and a normal or by three points (lattice, dyadic and real coordinates of size 0.01..1000, normals of any length), together with probe points, lines, segments, second and third planes (general, parallel, equal, through a common line), point sets that are coplanar or off by one point, and frames. Every answer is put back into the equations of the objects involved. "
    "non-trivial: the plane does not pass through the coordinate origin and is not parallel to a coordinate plane",
    4000000, 40000000, 10};

static vec3 v3(V v) { return vec3((double) v.x, (double) v.y, (double) v.z); }
static V vv(const vec3 &v) { return {v.x, v.y, v.z}; }
static V rnd(V v) { return {(double) v.x, (double) v.y, (double) v.z}; }

struct Pl {
    plane p;
    V o, n;   // a point and the unit normal
    int how;
};

static Pl make(pbt::Src &s, const geo::PointGen &g, V o, V n) {
    // (o, n): a point and a normal, both exactly representable
    Pl r;
    r.o = o;
    ld l = geo::norm(n);
    r.how = (int) s.below(4);
    if (r.how == 1) o = r.o = V{};
    if (r.how == 0) {
        double d = (double) -geo::dot(n, o);
        r.p = plane((double) n.x, (double) n.y, (double) n.z, d);
        r.o = n * (-(ld) d / (l * l));
    } else if (r.how == 1) r.p = plane(v3(n));
    else if (r.how == 2) r.p = plane(v3(o), v3(n));
    else {
        V a{}, b{};
        for (int k = 0; k < 20 && geo::norm(geo::cross(a - o, b - o)) < 0.05L * g.m * g.m; ++k) a = g(s), b = g(s);
        if (geo::norm(geo::cross(a - o, b - o)) < 0.05L * g.m * g.m) a = o + V{1, 0, 0}, b = o + V{0, 1, 0};
        a = rnd(a), b = rnd(b);
        n = geo::cross(a - o, b - o);
        l = geo::norm(n);
        r.p = plane(std::make_tuple(v3(o), v3(a), v3(b)));
        for (V q: {o, a, b}) PBT_CHECK(std::fabs(r.p.signedDistance(v3(q))) <= 1e-9 * (g.m + 1), "a plane through three points misses one of them by ", r.p.signedDistance(v3(q)));
        vec4 eq;
        plane_eq_from_pts(v3(o), v3(a), v3(b), eq);
        for (V q: {o, a, b}) PBT_CHECK(std::fabs(planeSignedDistance(v3(q), eq)) <= 1e-9 * (double) l * (g.m + 1), "the equation of three points does not vanish at one of them: ", planeSignedDistance(v3(q), eq));
    }
    r.n = n * (1 / l);
    return r;
}
static ld off(const Pl &p, V q) { return geo::dot(q - p.o, p.n); }

void property(pbt::Src &s, pbt::Ctx &c) {
    geo::PointGen g(s);
    g.k = 1;
    auto normal = [&]() -> V {
        for (int k = 0; k < 10; ++k) {
            V n = s.flag() ? V{(ld) s.zint(3), (ld) s.zint(3), (ld) s.zint(3)} : V{s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)};
            if (geo::norm(n) > 0.2L) return rnd(n * std::vector<ld>{1, 1, 10, 0.3L}[s.below(4)]);
        }
        return V{0, 0, 1};
    };
    V o = g(s), n = normal();
    Pl P = make(s, g, o, n);
    const ld sz = g.m + 1, tol = 1e-9L * sz;
    static const char *how[] = {"coefficients", "normal", "origin and normal", "three points"};
    c.show([&](auto &out) { out << how[P.how] << ": point " << P.o << " normal " << P.n; });
    // the plane itself
    PBT_CHECK(geo::dist(vv(P.p.normal), P.n) <= 1e-9L, how[P.how], ": the normal is ", vv(P.p.normal), " instead of ", P.n);
    PBT_CHECK(std::fabs(P.p.signedDistance(P.p.origin)) <= tol, how[P.how], ": the origin of the plane is off the plane by ", P.p.signedDistance(P.p.origin));
    PBT_CHECK(std::fabs(off(P, vv(P.p.origin))) <= tol, how[P.how], ": the origin ", vv(P.p.origin), " of the plane is not on it");
    std::vector<vec3> qs;
    for (int i = 0; i < 3; ++i) {
        V q = g(s);
        qs.push_back(v3(q));
        ld d = P.p.signedDistance(v3(q));
        PBT_CHECK(std::fabs(d - off(P, q)) <= tol, how[P.how], ": signed distance of ", q, " is ", (double) d, " instead of ", (double) off(P, q));
        PBT_CHECK(std::fabs(P.p.signedDistance(v3(q - P.n * d))) <= 2 * tol, "a point moved by its signed distance is not on the plane");
    }
    std::vector<double> ds;
    P.p.signedDistance(qs, ds);
    PBT_CHECK(ds.size() == qs.size() && ds[0] == P.p.signedDistance(qs[0]) && ds[2] == P.p.signedDistance(qs[2]), "signed distances of a list differ from single ones");
    // a line and a segment
    {
        V a = g(s), b = g(s);
        int rel = (int) s.below(4);
        V in = geo::cross(P.n, geo::norm(geo::cross(P.n, V{1, 0, 0})) > 0.3L ? V{1, 0, 0} : V{0, 1, 0});
        if (rel == 1) b = rnd(a + in);
        if (rel == 2) b = rnd(a - P.n * (2 * off(P, a)));
        ld da = off(P, a), db = off(P, b), len = geo::dist(a, b);
        if (len > 1e-3L * g.m) {
            vec3 pt;
            ld slope = std::fabs(db - da) / len;
            bool hit = P.p.planeRayIntersection(v3(a), v3(b - a), pt);
            if (slope > 1e-4L) {
                PBT_CHECK(hit, "a line that crosses the plane does not intersect it");
                PBT_CHECK(std::fabs(off(P, vv(pt))) <= tol / slope, "the intersection with a line is off the plane by ", (double) off(P, vv(pt)));
                PBT_CHECK(geo::dist(vv(pt), geo::on_line(vv(pt), a, b - a)) <= tol / slope, "the intersection with a line is not on the line");
            }
            if (rel == 1 && std::fabs(da) > 1e-2L * sz && P.how != 3) PBT_CHECK(!hit || geo::norm(vv(pt)) > 1e5L * sz, "a line parallel to the plane and off it is reported to intersect it at ", vv(pt));
            vec3 ps;
            bool sh = P.p.planeLineIntersection(v3(a), v3(b), ps);
            ld eps = 1e-6L * sz;
            if (da * db < 0 && std::min(std::fabs(da), std::fabs(db)) > eps) {
                PBT_CHECK(sh, "a segment that crosses the plane does not intersect it");
                PBT_CHECK(std::fabs(off(P, vv(ps))) <= tol / slope, "the intersection with a segment is off the plane");
                PBT_CHECK(geo::dist(vv(ps), geo::on_segment(vv(ps), a, b)) <= tol / slope, "the intersection with a segment is not on the segment");
            }
            if (da * db > 0 && std::min(std::fabs(da), std::fabs(db)) > eps) PBT_CHECK(!sh, "a segment on one side of the plane is reported to intersect it");
        }
    }
    // other planes
    {
        int rel = (int) s.below(4);
        V n2 = rel == 1 ? n : normal(), o2 = g(s);
        if (rel == 1 && s.flag()) n2 = n2 * -2;
        Pl Q = make(s, g, o2, n2);
        V dir = geo::cross(P.n, Q.n);
        ld sn = geo::norm(dir);
        vec3 p1, p2;
        bool hit = P.p.planePlaneIntersection(Q.p, p1, p2);
        if (sn > 1e-3L) {
            PBT_CHECK(hit, "planes that are not parallel (sine ", (double) sn, ") are reported not to intersect");
            for (auto &p: {p1, p2}) {
                PBT_CHECK(std::fabs(off(P, vv(p))) <= tol / sn / sn && std::fabs(off(Q, vv(p))) <= tol / sn / sn, "a point of the intersection line of two planes is off them by ",
                          (double) off(P, vv(p)), " and ", (double) off(Q, vv(p)));
            }
            PBT_CHECK(geo::dist(vv(p1), vv(p2)) > 1e-4L * sn, "the two points of the intersection line coincide");
        }
        if (sn < 1e-12L) PBT_CHECK(!hit, "parallel planes are reported to intersect");
        Pl R = make(s, g, g(s), rel == 2 ? rnd(P.n + Q.n) : normal());
        ld det = geo::dot(P.n, geo::cross(Q.n, R.n));
        vec3 pt;
        bool tri = P.p.planePlanePlaneIntersection(Q.p, R.p, pt);
        if (std::fabs(det) > 1e-3L && g.m >= 1) {
            PBT_CHECK(tri, "three planes in general position are reported not to meet");
            for (auto *x: {&P, &Q, &R}) PBT_CHECK(std::fabs(off(*x, vv(pt))) <= tol / std::fabs(det) / std::fabs(det), "the common point of three planes is off one of them by ", (double) off(*x, vv(pt)));
        }
        if (rel == 1 && P.how < 3 && Q.how < 3 && R.how < 3) PBT_CHECK(!tri || geo::norm(vv(pt)) > 1e5L * sz, "three planes, two of them parallel, are reported to meet in one point");
    }
    // coplanar point sets (integers: exact)
    {
        V e1{(ld) s.zint(3), (ld) s.zint(3), (ld) s.zint(3)}, e2{(ld) s.zint(3), (ld) s.zint(3), (ld) s.zint(3)}, b{(ld) s.zint(5), (ld) s.zint(5), (ld) s.zint(5)};
        V nn = geo::cross(e1, e2);
        int k = (int) s.below(9);
        std::vector<vec3> p;
        for (int i = 0; i < k; ++i) p.push_back(v3(b + e1 * s.zint(3) + e2 * s.zint(3)));
        bool flat = true;
        if (k > 3 && s.flag()) p[s.below(k)] = v3(b + V{(ld) s.zint(3), (ld) s.zint(3), (ld) s.zint(3)});
        for (int i = 0; i < k && flat; ++i)
            for (int j = i + 1; j < k && flat; ++j)
                for (int l = j + 1; l < k && flat; ++l)
                    for (int m = l + 1; m < k && flat; ++m)
                        flat = geo::dot(vv(p[m] - p[i]), geo::cross(vv(p[j] - p[i]), vv(p[l] - p[i]))) == 0;
        bool got = isPtsCoplanar(p, 1e-9);
        PBT_CHECK(got == flat, k, " points are ", flat ? "" : "not ", "coplanar, isPtsCoplanar says ", got);
        (void) nn;
        c.label(flat ? "coplanar set" : "non-coplanar set");
    }
    // frames
    {
        V z = P.n, x = geo::cross(z, std::fabs(z.x) < 0.7L ? V{1, 0, 0} : V{0, 1, 0});
        x = x * (1 / geo::norm(x));
        V y = geo::cross(z, x);
        cplane f(v3(o), v3(x), v3(y));
        V q = g(s);
        vec3 uvh, back;
        f.evaluateInv(v3(q), uvh);
        V want{geo::dot(q - o, x), geo::dot(q - o, y), geo::dot(q - o, z)};
        PBT_CHECK(geo::dist(vv(uvh), want) <= tol, "coordinates in a frame are ", vv(uvh), " instead of ", want);
        f.evaluate(uvh.x, uvh.y, back);
        PBT_CHECK(geo::dist(vv(back), q - z * want.z) <= tol, "a frame does not map coordinates back to the point");
        PBT_CHECK(std::fabs(f.signedDistance(v3(q)) - want.z) <= tol, "signed distance to a frame is ", f.signedDistance(v3(q)), " instead of ", (double) want.z);
        std::vector<vec3> in{v3(q), v3(o)}, out;
        f.evaluateInv(in, out);
        PBT_CHECK(out.size() == 2 && geo::dist(vv(out[0]), want) <= tol && geo::norm(vv(out[1])) <= tol, "coordinates of a list differ from single ones");
        // a frame through three points
        V a = g(s), b = g(s);
        ld area = geo::norm(geo::cross(a - o, b - o));
        if (area > 0.05L * g.m * g.m) {
            cplane t(std::make_tuple(v3(o), v3(a), v3(b)));
            V nn = geo::cross(a - o, b - o) * (1 / area);
            PBT_CHECK(std::fabs(geo::norm(vv(t.xaxis)) - 1) <= 1e-9L && std::fabs(geo::norm(vv(t.yaxis)) - 1) <= 1e-9L && std::fabs(geo::dot(vv(t.xaxis), vv(t.yaxis))) <= 1e-9L &&
                      std::fabs(geo::dot(vv(t.xaxis), nn)) <= 1e-6L && geo::dist(geo::cross(vv(t.xaxis), vv(t.yaxis)), nn) <= 1e-6L, "the axes of a frame through three points are ", vv(t.xaxis), " ", vv(t.yaxis));
            for (V w: {o, a, b}) {
                PBT_CHECK(std::fabs(t.signedDistance(v3(w))) <= tol * 10, "a frame through three points misses one of them");
                t.evaluateInv(v3(w), uvh);
                t.evaluate(uvh.x, uvh.y, back);
                PBT_CHECK(geo::dist(vv(back), w) <= tol * 10, "a frame through three points does not reproduce one of them");
            }
        }
    }
    if (std::fabs(off(P, V{})) > 0.01L * g.m && std::fabs(P.n.x) > 0.01L && std::fabs(P.n.y) > 0.01L && std::fabs(P.n.z) > 0.01L) c.nontrivial();
    c.label(how[P.how]);
}
