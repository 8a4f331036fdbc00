// Glue between the generators/reference and cmmcore's public types.
#pragma once
#include "nurbs_ref.h"
#include "cmmcore/nurbs.h"

namespace glue {
using cmmcore::vec3;
using cmmcore::vec4;
using cmmcore::NURBSCurve;
using cmmcore::NURBSSurface;

inline std::vector<vec4> pts(const std::vector<std::array<double, 4>> &P) {
    std::vector<vec4> r;
    for (auto &q: P) r.push_back(vec4(q[0], q[1], q[2], q[3]));
    return r;
}
inline NURBSCurve curve(const gen::CurveData &d) { return NURBSCurve(pts(d.P), d.p, d.U, false); }
inline NURBSSurface surface(const gen::SurfData &d) {
    std::vector<std::vector<vec4>> P;
    for (auto &r: d.P) P.push_back(pts(r));
    return NURBSSurface(P, {d.p, d.q}, d.U, d.V);
}
inline vec3 from3(const ref::P3 &v) { return {(double) v[0], (double) v[1], (double) v[2]}; }
inline ref::P3 to3(const vec3 &v) { return {v.x, v.y, v.z}; }
// reference built from what a cmmcore object says it is (knots, degree, control points)
inline ref::Curve as_ref(const NURBSCurve &c) {
    ref::Curve r;
    r.p = c.get_degree();
    for (double u: c.get_knots()) r.U.push_back(u);
    for (auto &q: c.get_control_points()) r.P.push_back({q.x, q.y, q.z, q.w});
    return r;
}
inline ref::Surface as_ref(const NURBSSurface &s) {
    ref::Surface r;
    r.p = s._degree[0];
    r.q = s._degree[1];
    for (double u: s._knots_u) r.U.push_back(u);
    for (double u: s._knots_v) r.V.push_back(u);
    for (auto &row: s._control_points) {
        r.P.emplace_back();
        for (auto &q: row) r.P.back().push_back({q.x, q.y, q.z, q.w});
    }
    return r;
}
inline std::string bits(double x) {
    uint64_t u;
    memcpy(&u, &x, 8);
    return pbt::str(x, "/", std::hex, u);
}
inline bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
inline void same_curve(const NURBSCurve &a, const NURBSCurve &b, const char *what) {
    PBT_CHECK(a.get_degree() == b.get_degree(), what, ": degree");
    PBT_CHECK(a.get_knots() == b.get_knots(), what, ": knots");
    PBT_CHECK(a.get_control_points().size() == b.get_control_points().size(), what, ": number of control points");
    for (size_t i = 0; i < a.get_control_points().size(); ++i) {
        auto &p = a.get_control_points()[i];
        auto &q = b.get_control_points()[i];
        PBT_CHECK(p.x == q.x && p.y == q.y && p.z == q.z && p.w == q.w, what, ": control point ", i);
    }
    PBT_CHECK(a.interval() == b.interval(), what, ": domain");
    PBT_CHECK(a._periodic == b._periodic, what, ": periodicity");
}
inline void valid_clamped(const NURBSCurve &c, const char *what) {
    int p = c.get_degree();
    auto &k = c.get_knots();
    size_t n = c.get_control_points().size();
    PBT_CHECK(k.size() == n + p + 1, what, ": ", k.size(), " knots for ", n, " control points of degree ", p);
    for (size_t i = 0; i + 1 < k.size(); ++i) PBT_CHECK(k[i] <= k[i + 1], what, ": knots decrease at ", i);
    for (int i = 0; i <= p; ++i) {
        PBT_CHECK(k[i] == k[0] && k[k.size() - 1 - i] == k.back(), what, ": knots not clamped");
    }
    PBT_CHECK(c.interval()[0] == k.front() && c.interval()[1] == k.back(), what, ": domain does not match the knots");
}
inline void valid_clamped(const std::vector<double> &k, int p, size_t n, const char *what) {
    PBT_CHECK(k.size() == n + p + 1, what, ": ", k.size(), " knots for ", n, " control points of degree ", p);
    for (size_t i = 0; i + 1 < k.size(); ++i) PBT_CHECK(k[i] <= k[i + 1], what, ": knots decrease at ", i);
    for (int i = 0; i <= p; ++i) PBT_CHECK(k[i] == k[0] && k[k.size() - 1 - i] == k.back(), what, ": knots not clamped");
}
}  // namespace glue
