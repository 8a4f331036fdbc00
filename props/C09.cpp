#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C09",
    "surfaces of degrees 1..8 in each direction with different grid sizes, spacings, multiplicities and weights, built with given or generated knots from 3D or homogeneous points; parameters inside, on knots and on the boundary. "
    "non-trivial: a parameter pair strictly inside a surface that has an interior knot or is rational",
    450000, 4500000, 8};

void property(pbt::Src &s, pbt::Ctx &c) {
    auto d = gen::surface(s);
    bool gen_knots = s.chance(1, 4);
    NURBSSurface k;
    auto P4 = [&] {
        std::vector<std::vector<vec4>> P;
        for (auto &r: d.P) P.push_back(glue::pts(r));
        return P;
    };
    if (gen_knots) {
        size_t n = d.P.size(), m = d.P[0].size();
        auto mk = [](size_t n, int p) {
            std::vector<double> k;
            for (int i = 0; i <= p; ++i) k.push_back(0);
            for (size_t i = p + 1; i < n; ++i) k.push_back((double) (i - p));
            for (int i = 0; i <= p; ++i) k.push_back((double) (n - p));
            return k;
        };
        d.U = mk(n, d.p);
        d.V = mk(m, d.q);
        if (s.flag()) {
            for (auto &r: d.P) for (auto &q: r) { for (int i = 0; i < 3; ++i) q[i] /= q[3]; q[3] = 1; }
            std::vector<std::vector<vec3>> P;
            for (auto &r: d.P) {
                P.emplace_back();
                for (auto &q: r) P.back().push_back(vec3(q[0], q[1], q[2]));
            }
            k = NURBSSurface(P, {d.p, d.q});
        } else k = NURBSSurface(P4(), {d.p, d.q});
        PBT_CHECK(k._knots_u == d.U && k._knots_v == d.V, "generated knots");
        c.label("generated knots");
    } else k = NURBSSurface(P4(), {d.p, d.q}, d.U, d.V);
    c.show([&](auto &o) { o << d; });
    PBT_CHECK(k.interval()[0][0] == d.U.front() && k.interval()[0][1] == d.U.back() && k.interval()[1][0] == d.V.front() && k.interval()[1][1] == d.V.back(), "domain");
    PBT_CHECK(k.shape()[0] == d.P.size() && k.shape()[1] == d.P[0].size(), "shape");
    const NURBSSurface &ck = k;
    PBT_CHECK(k.knots_u() == d.U && k.knots_v() == d.V && ck.knots_u() == d.U && ck.knots_v() == d.V, "knots");
    auto r = d.ref();
    double tol = 2e-9 * d.scale() + 1e-12;
    double A[3][4];
    for (auto &row: A) for (double &x: row) x = s.zint(16) / 4.0;
    auto dm = d;
    for (auto &row: dm.P)
        for (auto &q: row) {
            auto o = q;
            for (int i = 0; i < 3; ++i) q[i] = A[i][0] * o[0] + A[i][1] * o[1] + A[i][2] * o[2] + A[i][3] * o[3];
        }
    NURBSSurface km = glue::surface(dm);
    // swapping the roles of u and v
    gen::SurfData ds = d;
    std::swap(ds.p, ds.q);
    std::swap(ds.U, ds.V);
    ds.P.assign(d.P[0].size(), {});
    for (size_t j = 0; j < d.P[0].size(); ++j) for (size_t i = 0; i < d.P.size(); ++i) ds.P[j].push_back(d.P[i][j]);
    NURBSSurface ks = glue::surface(ds);
    double lo[3], hi[3];
    for (int x = 0; x < 3; ++x) {
        lo[x] = 1e300, hi[x] = -1e300;
        for (auto &row: d.P) for (auto &q: row) lo[x] = std::min(lo[x], q[x] / q[3]), hi[x] = std::max(hi[x], q[x] / q[3]);
    }
    int m = 1 + (int) s.below(10);
    for (int i = 0; i < m; ++i) {
        double u = gen::param(s, d.U), v = gen::param(s, d.V);
        vec3 a, t, q;
        k.evaluate(u, v, a);
        auto want = r.eval(u, v);
        PBT_CHECK(ref::dist(glue::to3(a), want) <= tol, "at (", u, ",", v, ") got ", a.x, ",", a.y, ",", a.z, " expected ", (double) want[0], ",", (double) want[1], ",", (double) want[2]);
        km.evaluate(u, v, t);
        vec3 w(A[0][0] * a.x + A[0][1] * a.y + A[0][2] * a.z + A[0][3], A[1][0] * a.x + A[1][1] * a.y + A[1][2] * a.z + A[1][3],
               A[2][0] * a.x + A[2][1] * a.y + A[2][2] * a.z + A[2][3]);
        PBT_CHECK(ref::dist(glue::to3(t), glue::to3(w)) <= 40 * tol, "affine map does not commute with evaluation");
        ks.evaluate(v, u, q);
        PBT_CHECK(ref::dist(glue::to3(a), glue::to3(q)) <= 2 * tol, "exchanging u and v gives another point");
        for (int x = 0; x < 3; ++x) {
            double y = x == 0 ? a.x : x == 1 ? a.y : a.z;
            PBT_CHECK(y >= lo[x] - tol && y <= hi[x] + tol, "outside the box of the control points");
        }
        if (u != d.U.front() && u != d.U.back() && v != d.V.front() && v != d.V.back() &&
            (d.rational || d.U.size() > 2u * (d.p + 1) || d.V.size() > 2u * (d.q + 1))) c.nontrivial();
    }
    for (int e = 0; e < 4; ++e) {
        vec3 a;
        k.evaluate(e & 1 ? d.U.back() : d.U.front(), e & 2 ? d.V.back() : d.V.front(), a);
        auto &q = d.P[e & 1 ? d.P.size() - 1 : 0][e & 2 ? d.P[0].size() - 1 : 0];
        PBT_CHECK(ref::dist(glue::to3(a), {q[0] / q[3], q[1] / q[3], q[2] / q[3]}) <= tol, "corner ", e, " is not interpolated");
    }
    if (d.rational) c.label("rational");
    if (d.multi) c.label("repeated interior knots");
}
