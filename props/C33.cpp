#include "bezpatch.h"
#include "cmmcore/monomial.h"
using namespace cmmcore;
using ref::ld;
using ref::P3;
const pbt::Spec SPEC = {"C33",
    "polynomial Bezier patches of degree 1..8 in each direction (wild points, height fields, nearly flat; several domains, common weights other than one), converted to the monomial form directly, through every constructor, by copy, by assignment and by set(); evaluated by a long double sum over the coefficients and compared with de Casteljau at random parameters; converted back; first and repeated partial derivatives and the normal field likewise. "
    "non-trivial: degree at least 2 in one direction",
    150000, 1500000, 8};

struct Val { P3 v; ld mag; };
static Val eval(const Monomial2D &m, ld u, ld v) {
    Val r{{0, 0, 0}, 0};
    for (size_t i = 0; i < m.coefficients.size(); ++i)
        for (size_t j = 0; j < m.coefficients[i].size(); ++j) {
            ld b = powl(u, (ld) i) * powl(v, (ld) j);
            auto &c = m.coefficients[i][j];
            for (int k = 0; k < 3; ++k) r.v[k] += b * c[k], r.mag += fabsl(b * c[k]);
        }
    return r;
}
static ld maxc(const Monomial2D &m) {
    ld r = 0;
    for (auto &a: m.coefficients) for (auto &c: a) for (int k = 0; k < 3; ++k) r = std::max(r, fabsl((ld) c[k]));
    return r;
}
static void same(const Monomial2D &a, const Monomial2D &b, const char *what) {
    PBT_CHECK(a.n == b.n && a.m == b.m && a.coefficients.size() == b.coefficients.size(), what, ": size");
    for (size_t i = 0; i < a.coefficients.size(); ++i)
        for (size_t j = 0; j < a.coefficients[i].size(); ++j)
            for (int k = 0; k < 3; ++k) PBT_CHECK(a.coefficients[i][j][k] == b.coefficients[i][j][k], what, ": coefficient ", i, ",", j);
}
static void back(Monomial2D m, const std::vector<std::vector<std::array<ld, 3>>> &P, ld tol, const char *what, const NURBSSurface *over = nullptr) {
    NURBSSurface z;
    if (over) z = *over;   // over an existing surface, usually of another size
    m.to_bezier(z);
    PBT_CHECK(z._degree[0] == (int) P.size() - 1 && z._degree[1] == (int) P[0].size() - 1, what, ": degree ", z._degree[0], "x", z._degree[1]);
    PBT_CHECK(z._control_points.size() == P.size() && z._control_points[0].size() == P[0].size(), what, ": number of control points");
    for (size_t i = 0; i < P.size(); ++i)
        for (size_t j = 0; j < P[0].size(); ++j) {
            auto &q = z._control_points[i][j];
            for (int k = 0; k < 3; ++k) PBT_CHECK(fabsl(q[k] / q.w - P[i][j][k]) <= tol, what, ": control point ", i, ",", j, " component ", k, " is ", (double) (q[k] / q.w), ", expected ", (double) P[i][j][k]);
        }
    // a usable Bezier patch
    PBT_CHECK(z._knots_u.size() == 2 * P.size() && z._knots_v.size() == 2 * P[0].size(), what, ": number of knots");
    glue::valid_clamped(z._knots_u, z._degree[0], P.size(), what);
    glue::valid_clamped(z._knots_v, z._degree[1], P[0].size(), what);
    PBT_CHECK(z._interval[0][0] == z._knots_u.front() && z._interval[0][1] == z._knots_u.back() && z._interval[1][0] == z._knots_v.front() && z._interval[1][1] == z._knots_v.back(), what, ": domain");
    auto &bb = z.aabb();
    for (int k = 0; k < 3; ++k) {
        ld lo = 1e300L, hi = -1e300L;
        for (auto &r: P) for (auto &q: r) lo = std::min(lo, q[k]), hi = std::max(hi, q[k]);
        PBT_CHECK(fabsl(bb.min[k] - lo) <= tol && fabsl(bb.max[k] - hi) <= tol, what, ": the bounding box is [", bb.min[k], ",", bb.max[k], "] in component ", k, ", expected [", (double) lo, ",", (double) hi, "]");
    }
}
static P3 toP(const std::array<double, 3> &a) { return {a[0], a[1], a[2]}; }
void property(pbt::Src &s, pbt::Ctx &c) {
    auto pa = bz::patch(s, 8, (int) s.below(3));
    c.show([&](auto &o) { o << pa; });
    if (pa.p > 1 || pa.q > 1) c.nontrivial();
    auto srf = pa.surface();
    auto R = pa.ref();
    Monomial2D m(srf);
    PBT_CHECK(m.n == pa.p + 1 && m.m == pa.q + 1 && (int) m.coefficients.size() == pa.p + 1 && (int) m.coefficients[0].size() == pa.q + 1, "size of the monomial form");
    // every route to the same form
    auto cf = m.coefficients;
    Monomial2D byco(cf), bysize(m.n, m.m, cf), copy(m), asg, set1, other(2 + (int) s.below(3), 2 + (int) s.below(3));
    asg = m;
    other = m;
    other = *&other;
    auto tmp = cf;
    set1.set(tmp);
    std::vector<std::pair<const char *, const Monomial2D *>> all{{"from coefficients", &byco}, {"from size and coefficients", &bysize}, {"copy", &copy}, {"assigned", &asg}, {"assigned over another", &other}, {"set", &set1}, {"direct", &m}};
    for (auto &x: all) same(m, *x.second, x.first);
    Monomial2D zero(m.n, m.m);
    PBT_CHECK(maxc(zero) == 0 && (int) zero.coefficients.size() == m.n && (int) zero.coefficients[0].size() == m.m, "the form of a given size is zero");
    std::vector<std::vector<std::array<ld, 3>>> P;
    for (auto &r: pa.P) { P.emplace_back(); for (auto &q: r) P.back().push_back({q[0], q[1], q[2]}); }
    ld mc = std::max(maxc(m), (ld) pa.scale());
    // rounding of the conversion itself: eps * largest coefficient * a few; back: the inverse has entries at most one
    ld tol = 1e-14L * mc * (pa.p + 1) * (pa.q + 1) * 4;
    auto &pick = s.of(all);
    c.label(std::string("back: ") + pick.first);
    if (s.flag()) {
        auto o = bz::patch(s, 3, 0).surface();
        back(*pick.second, P, tol, pick.first, &o);
    } else back(*pick.second, P, tol, pick.first);
    for (int i = 0; i < 3; ++i) {
        double u = s.below(5) ? s.unit() : (double) s.below(2), v = s.below(5) ? s.unit() : (double) s.below(2);
        auto g = eval(m, u, v);
        PBT_CHECK(ref::dist(g.v, R.eval(u, v)) <= tol, "monomial form at (", u, ",", v, ") is off by ", (double) ref::dist(g.v, R.eval(u, v)));
        // partial derivatives and normal
        Monomial2D du, dv, n, duv, duu;
        m.computePartialDerivative(SurfaceParameter::U, du);
        m.computePartialDerivative(SurfaceParameter::V, dv);
        m.computeNormal(n);
        if (i == 0 && s.chance(1, 4)) {   // into the same object
            Monomial2D in = m;
            in.computePartialDerivative(SurfaceParameter::U, in);
            same(du, in, "u derivative in place");
            in = m;
            in.computeNormal(in);
            same(n, in, "normal in place");
        }
        PBT_CHECK(du.n == pa.p && du.m == pa.q + 1 && dv.n == pa.p + 1 && dv.m == pa.q && n.n == 2 * pa.p && n.m == 2 * pa.q, "sizes of the derivatives: ", du.n, "x", du.m, " ", dv.n, "x", dv.m, " ", n.n, "x", n.m);
        P3 wu = R.du(u, v), wv = R.dv(u, v), wn = ref::cross(wu, wv);
        ld td = tol * std::max(pa.p, pa.q) * 4;
        PBT_CHECK(ref::dist(eval(du, u, v).v, wu) <= td, "u derivative at (", u, ",", v, ") is off by ", (double) ref::dist(eval(du, u, v).v, wu));
        PBT_CHECK(ref::dist(eval(dv, u, v).v, wv) <= td, "v derivative at (", u, ",", v, ") is off by ", (double) ref::dist(eval(dv, u, v).v, wv));
        auto gn = eval(n, u, v);
        ld au = eval(du, 1, 1).mag + mc, av = eval(dv, 1, 1).mag + mc;
        PBT_CHECK(ref::dist(gn.v, wn) <= 1e-13L * au * av * (pa.p + 1) * (pa.q + 1), "normal at (", u, ",", v, ") is off by ", (double) ref::dist(gn.v, wn), " of ", (double) ref::norm(wn));
        // the free functions, over results of another size
        Tensor2D<vec3> fu(1 + s.below(9), std::vector<vec3>(1 + s.below(9), vec3(7, 8, 9))), fv = fu, fn = fu;
        compute_partial_derivative(m.coefficients, SurfaceParameter::U, fu);
        compute_partial_derivative(m.coefficients, SurfaceParameter::V, fv);
        cross(fu, fv, fn);
        same(Monomial2D(fu), du, "u derivative by the free function");
        same(Monomial2D(fv), dv, "v derivative by the free function");
        same(Monomial2D(fn), n, "normal by the free function");
        // mixed and repeated derivatives
        du.computePartialDerivative(SurfaceParameter::V, duv);
        du.computePartialDerivative(SurfaceParameter::U, duu);
        Monomial2D dvu;
        dv.computePartialDerivative(SurfaceParameter::U, dvu);
        P3 a = eval(duv, u, v).v, b = eval(dvu, u, v).v;
        PBT_CHECK(ref::dist(a, b) <= 1e-14L * eval(duv, 1, 1).mag + td * std::max(pa.p, pa.q), "mixed derivatives differ at (", u, ",", v, ")");
        P3 w2 = R.row_curve_u(v).ders(u, 2)[2];
        PBT_CHECK(ref::dist(eval(duu, u, v).v, w2) <= td * pa.p * 4, "second u derivative at (", u, ",", v, ") is off by ", (double) ref::dist(eval(duu, u, v).v, w2));
        if (i == 0) {   // the derivative as a patch: differences of the control points
            std::vector<std::vector<std::array<ld, 3>>> D;
            for (int a = 0; a < pa.p; ++a) {
                D.emplace_back();
                for (int b = 0; b <= pa.q; ++b) {
                    P3 x = ref::mul(ref::sub(toP(pa.P[a + 1][b]), toP(pa.P[a][b])), pa.p);
                    D.back().push_back(x);
                }
            }
            back(du, D, td, "u derivative");
        }
    }
}
