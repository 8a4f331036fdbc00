#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C07",
    "a clamped or periodic curve of degree 1..8 (rational or not, any interior multiplicities) followed by up to 8 operations out of copy, assignment, move, split, decomposition, "
    "insertion, normalisation and replacement of the control points (same or different number); after every step both accessors of the box are compared with the box of the projected control points and with sampled points of the curve. "
    "non-trivial: at least two operations",
    720000, 7200000, 6};

struct Box { double lo[3], hi[3]; };
static Box box_of(const std::vector<vec4> &P) {
    Box b;
    for (int k = 0; k < 3; ++k) b.lo[k] = 1e300, b.hi[k] = -1e300;
    for (auto &q: P) {
        double v[3] = {q.x / q.w, q.y / q.w, q.z / q.w};
        for (int k = 0; k < 3; ++k) b.lo[k] = std::min(b.lo[k], v[k]), b.hi[k] = std::max(b.hi[k], v[k]);
    }
    return b;
}
static void same_box(const AABB &a, const Box &b, const char *what, const char *op) {
    const double al[3] = {a.min.x, a.min.y, a.min.z}, ah[3] = {a.max.x, a.max.y, a.max.z};
    for (int k = 0; k < 3; ++k) {
        double tol = 1e-12 * (1 + std::fabs(b.lo[k]) + std::fabs(b.hi[k]));
        PBT_CHECK(std::fabs(al[k] - b.lo[k]) <= tol && std::fabs(ah[k] - b.hi[k]) <= tol, what, " after ", op, ": axis ", k, " is [", al[k], ",", ah[k],
                  "], control points span [", b.lo[k], ",", b.hi[k], "]");
    }
}
static void check(pbt::Src &s, const NURBSCurve &c, const char *op) {
    Box b = box_of(c.get_control_points());
    same_box(c.aabb(), b, "aabb()", op);
    NURBSCurve t(c);
    same_box(t.bbox(), b, "bbox()", op);
    PBT_CHECK(c.interval()[0] == *std::min_element(c.get_knots().begin(), c.get_knots().end()) &&
              c.interval()[1] == *std::max_element(c.get_knots().begin(), c.get_knots().end()), "interval after ", op, " is not the knot range");
    auto &U = c.get_knots();
    int p = c.get_degree();
    PBT_CHECK(U.size() == c.get_control_points().size() + p + 1, "number of knots after ", op);
    double a = U[p], e = U[U.size() - 1 - p];
    for (int i = 0; i < 3; ++i) {
        double u = i == 0 ? a + (e - a) * s.unit() : i == 1 ? a : e;
        vec3 v;
        c.evaluate(u, v);
        double x[3] = {v.x, v.y, v.z};
        for (int k = 0; k < 3; ++k) {
            double tol = 1e-9 * (1 + std::fabs(b.lo[k]) + std::fabs(b.hi[k]));
            PBT_CHECK(x[k] >= b.lo[k] - tol && x[k] <= b.hi[k] + tol, "point at ", u, " outside the box after ", op, " on axis ", k);
        }
    }
}

void property(pbt::Src &s, pbt::Ctx &c) {
    gen::CurveOpt o;
    auto d = gen::curve(s, o);
    bool per = s.chance(1, 5) && d.p <= 5;
    NURBSCurve cur = per ? NURBSCurve(glue::pts(d.P), d.p, true) : s.chance(1, 5) ? NURBSCurve(glue::pts(d.P), d.p) : glue::curve(d);
    bool from3 = s.chance(1, 8);
    if (from3) {
        std::vector<vec3> q;
        for (auto &x: d.P) q.push_back(vec3(x[0], x[1], x[2]));
        cur = NURBSCurve(q, d.p, per);
        for (auto &x: cur.get_control_points()) PBT_CHECK(x.w == 1, "weight of a control point given in 3D is ", x.w);
    }
    c.show([&](auto &os) { os << d << (per ? " periodic" : "") << (from3 ? " 3d" : "") << " ops:"; });
    if (per) c.label("periodic");
    check(s, cur, "construction");
    int nops = (int) s.below(9), done = 0;
    for (int i = 0; i < nops; ++i) {
        int op = (int) s.pick({3, 2, 3, 3, 3, 1, 1, 2, 1});
        auto before = cur;
        glue::same_curve(before, cur, "copy");
        const char *name = "";
        bool clamped = !cur._periodic && cur.get_knots()[0] == cur.get_knots()[cur.get_degree()];
        double lo = cur.get_knots()[cur.get_degree()], hi = cur.get_knots()[cur.get_control_points().size()];
        switch (op) {
            case 0: {
                name = "move construction";
                NURBSCurve m(std::move(cur));
                glue::same_curve(before, m, name);
                check(s, m, name);
                cur = m;
                glue::same_curve(before, cur, "assignment");
                break;
            }
            case 1: {
                name = "move assignment";
                NURBSCurve m;
                m = std::move(cur);
                glue::same_curve(before, m, name);
                check(s, m, name);
                cur = m;
                break;
            }
            case 2: {
                name = "copy";
                NURBSCurve m(cur);
                // changing the copy does not touch the original
                auto q = m.get_control_points();
                for (auto &x: q) x.x += 5 * x.w;
                m.set_control_points(q);
                glue::same_curve(before, cur, "original of a modified copy");
                same_box(cur.aabb(), box_of(before.get_control_points()), "aabb()", "modifying a copy");
                check(s, m, "shift of a copy");
                if (s.flag()) cur = m;
                m = *&m;
                check(s, m, "assignment to itself");
                break;
            }
            case 3: {
                name = "insert_knot";
                if (!clamped) continue;
                double t = gen::inside(s, cur.get_knots(), 0.01);
                int m = find_multiplicity(t, cur.get_knots());
                int room = cur.get_degree() - m;
                if (room <= 0 || cur.get_control_points().size() > 40) continue;
                cur.insert_knot(t, s.range(1, room));
                break;
            }
            case 4: {
                name = "split";
                if (!clamped || hi - lo < 1e-6) continue;
                double t = lo + (hi - lo) * (0.1 + 0.8 * s.unit());
                auto pr = cur.split(t, s.flag());
                check(s, pr.first, "split (first piece)");
                check(s, pr.second, "split (second piece)");
                glue::same_curve(before, cur, "original of a split");
                cur = s.flag() ? pr.second : pr.first;
                break;
            }
            case 5: {
                name = "decompose";
                if (!clamped) continue;
                std::vector<NURBSCurve> v;
                cur.decompose(v);
                for (auto &x: v) check(s, x, "decompose (segment)");
                PBT_CHECK(!v.empty(), "no segments");
                cur = v[s.below(v.size())];
                break;
            }
            case 6: {
                name = "normalize_knots";
                if (hi - lo < 1e-6) continue;
                cur.normalize_knots();
                break;
            }
            case 7: {
                name = "set_control_points";
                auto q = cur.get_control_points();
                for (auto &x: q)
                    if (s.flag()) x.x = s.coord(50) * x.w, x.y = s.coord(50) * x.w;
                cur.set_control_points(q);
                break;
            }
            default: {
                name = "set_control_points with another size";
                auto q = cur.get_control_points();
                if (s.flag()) q.push_back(vec4(q.back().x + q.back().w, q.back().y, q.back().z, q.back().w));
                else if ((int) q.size() > cur.get_degree() + 1) q.pop_back();
                else continue;
                cur.set_control_points(q);
                break;
            }
        }
        c.show([&](auto &os) { os << " " << name; });
        check(s, cur, name);
        ++done;
    }
    if (done >= 2) c.nontrivial();
    if (cur.get_degree() >= 1 && !per) {
        // derivative curve: its own box too (only meaningful as a point set for equal weights)
        bool eq = true;
        for (auto &x: cur.get_control_points()) eq = eq && x.w == cur.get_control_points()[0].w;
        if (eq && cur.get_degree() >= 2) {
            NURBSCurve g = cur.get_derivative();
            auto &U = g.get_knots();
            bool ok = true;
            for (auto &x: g.get_control_points()) ok = ok && std::isfinite(x.x) && std::isfinite(x.y) && std::isfinite(x.z);
            if (ok) {
                (void) U;
                same_box(g.bbox(), box_of(g.get_control_points()), "bbox()", "get_derivative");
                same_box(cur.get_derivative().aabb(), box_of(g.get_control_points()), "aabb()", "get_derivative");
            }
        }
    }
}
