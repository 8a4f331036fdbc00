#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C11",
    "surfaces of degrees 1..8 with different sizes and knots in u and v; splits in u or v at interior parameters, knots and outside the domain, the four subdivide forms and decomposition into patches. "
    "non-trivial: an accepted split, subdivision or decomposition of a surface with at least one interior knot",
    120000, 1500000, 8};

static double TOL;
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-12; }
static void piece_ok(pbt::Src &s, const NURBSSurface &x, const ref::Surface &r, double ua, double ub, double va, double vb, int p, int q, const char *what) {
    PBT_CHECK(x._degree[0] == p && x._degree[1] == q, what, ": degrees");
    auto iv = x.interval();
    PBT_CHECK(near(iv[0][0], ua) && near(iv[0][1], ub) && near(iv[1][0], va) && near(iv[1][1], vb), what, ": domain [", iv[0][0], ",", iv[0][1], "]x[", iv[1][0], ",", iv[1][1], "] expected [", ua, ",", ub,
              "]x[", va, ",", vb, "]");
    PBT_CHECK(x.control_points().size() == x.shape()[0], what, ": rows");
    for (auto &row: x.control_points()) PBT_CHECK(row.size() == x.shape()[1], what, ": columns");
    glue::valid_clamped(x._knots_u, p, x.shape()[0], what);
    glue::valid_clamped(x._knots_v, q, x.shape()[1], what);
    auto g = glue::as_ref(x);
    for (int i = 0; i < 4; ++i) {
        double u = gen::param(s, x._knots_u), v = gen::param(s, x._knots_v);
        auto w = r.eval(u, v);
        vec3 y;
        x.evaluate(u, v, y);
        PBT_CHECK(ref::dist(w, glue::to3(y)) <= TOL, what, ": differs from the original at (", u, ",", v, ") by ", (double) ref::dist(w, glue::to3(y)));
        PBT_CHECK(ref::dist(w, g.eval(u, v)) <= TOL, what, ": control net differs from the original at (", u, ",", v, ")");
    }
    for (int e = 0; e < 4; ++e) {
        double u = e & 1 ? ub : ua, v = e & 2 ? vb : va;
        vec3 y;
        x.evaluate(u, v, y);
        PBT_CHECK(ref::dist(r.eval(u, v), glue::to3(y)) <= TOL, what, ": corner ", e);
    }
}
static void unchanged(const NURBSSurface &a, const NURBSSurface &b) {
    PBT_CHECK(a._knots_u == b._knots_u && a._knots_v == b._knots_v && a.shape() == b.shape() && a.interval() == b.interval() && a._degree == b._degree, "source changed");
    for (size_t i = 0; i < a.shape()[0]; ++i)
        for (size_t j = 0; j < a.shape()[1]; ++j) {
            auto &x = a.control_points()[i][j];
            auto &y = b.control_points()[i][j];
            PBT_CHECK(x.x == y.x && x.y == y.y && x.z == y.z && x.w == y.w, "source control point changed");
        }
}

void property(pbt::Src &s, pbt::Ctx &c) {
    gen::SurfOpt so;
    so.extra = 4;
    auto d = gen::surface(s, so);
    c.show([&](auto &o) { o << d; });
    auto r = d.ref();
    NURBSSurface k = glue::surface(d);
    const NURBSSurface orig = k;
    TOL = 4e-9 * d.scale() + 1e-12;
    bool interior = d.U.size() > 2u * (d.p + 1) || d.V.size() > 2u * (d.q + 1);
    int mode = (int) s.below(4);
    double ua = d.U.front(), ub = d.U.back(), va = d.V.front(), vb = d.V.back();
    if (mode <= 1) {
        int rounds = 1 + (int) s.below(3);
        for (int i = 0; i < rounds; ++i) {
            int dir = (int) s.below(2);
            auto &kn = dir ? k._knots_v : k._knots_u;
            auto iv = k.interval();
            double a = iv[dir][0], b = iv[dir][1], t;
            bool bad = false;
            switch (s.below(6)) {
                case 0: t = s.flag() ? a : b; bad = true; break;
                case 1: t = s.flag() ? a - 0.01 - s.unit() : b + 0.01 + s.unit(); bad = true; break;
                case 2: t = s.of(gen::distinct(kn)); bad = t == a || t == b; break;
                default: t = gen::inside(s, kn, 0.03);
            }
            if (!bad && (t - a < 1e-6 || b - t < 1e-6)) return;
            c.show([&](auto &o) { o << " split " << (dir ? "v " : "u ") << t; });
            const NURBSSurface before = k;
            if (bad) {
                bool thrown = false;
                try { dir ? (void) k.split_surface_v(t) : (void) k.split_surface_u(t); } catch (const std::exception &) { thrown = true; }
                PBT_CHECK(thrown, "split at ", t, " of [", a, ",", b, "] was accepted");
                unchanged(k, before);
                c.label("rejected parameter");
                continue;
            }
            double tq = std::count(kn.begin(), kn.end(), t) && s.chance(1, 3) ? gen::beside(s, t) : t;
            auto [x, y] = dir ? k.split_surface_v(tq) : k.split_surface_u(tq);
            unchanged(k, before);
            if (dir) {
                piece_ok(s, x, r, iv[0][0], iv[0][1], a, t, d.p, d.q, "first piece");
                piece_ok(s, y, r, iv[0][0], iv[0][1], t, b, d.p, d.q, "second piece");
            } else {
                piece_ok(s, x, r, a, t, iv[1][0], iv[1][1], d.p, d.q, "first piece");
                piece_ok(s, y, r, t, b, iv[1][0], iv[1][1], d.p, d.q, "second piece");
            }
            if (interior) c.nontrivial();
            c.label(dir ? "split v" : "split u");
            k = s.flag() ? y : x;
        }
    } else if (mode == 2) {
        double um = 0.5 * (ua + ub), vm = 0.5 * (va + vb);
        std::array<NURBSSurface, 4> q;
        int form = (int) s.below(4);
        if (form & 1) um = s.flag() ? gen::inside(s, d.U, 0.05) : um, vm = gen::inside(s, d.V, 0.05);
        c.show([&](auto &o) { o << " subdivide form " << form << " at " << um << "," << vm; });
        if (form == 0) q = k.subdivide();
        else if (form == 1) q = k.subdivide(um, vm);
        else if (form == 2) k.subdivide(q[0], q[1], q[2], q[3]);
        else k.subdivide(q[0], q[1], q[2], q[3], um, vm);
        unchanged(k, orig);
        piece_ok(s, q[0], r, ua, um, va, vm, d.p, d.q, "quarter 0");
        piece_ok(s, q[1], r, ua, um, vm, vb, d.p, d.q, "quarter 1");
        piece_ok(s, q[2], r, um, ub, va, vm, d.p, d.q, "quarter 2");
        piece_ok(s, q[3], r, um, ub, vm, vb, d.p, d.q, "quarter 3");
        if (interior) c.nontrivial();
        c.label("subdivide");
    } else {
        std::vector<NURBSSurface> v;
        k.decompose(v);
        unchanged(k, orig);
        auto du = gen::distinct(d.U), dv = gen::distinct(d.V);
        PBT_CHECK(v.size() == (du.size() - 1) * (dv.size() - 1), v.size(), " patches for ", du.size() - 1, "x", dv.size() - 1, " cells");
        std::set<std::pair<size_t, size_t>> seen;
        for (auto &x: v) {
            auto iv = x.interval();
            size_t i = std::find(du.begin(), du.end(), iv[0][0]) - du.begin(), j = std::find(dv.begin(), dv.end(), iv[1][0]) - dv.begin();
            PBT_CHECK(i + 1 < du.size() && j + 1 < dv.size(), "a patch does not start at a cell");
            PBT_CHECK(seen.insert({i, j}).second, "a cell is covered twice");
            piece_ok(s, x, r, du[i], du[i + 1], dv[j], dv[j + 1], d.p, d.q, "patch");
            PBT_CHECK((int) x.shape()[0] == d.p + 1 && (int) x.shape()[1] == d.q + 1, "a patch has ", x.shape()[0], "x", x.shape()[1], " points for degrees ", d.p, ",", d.q);
        }
        if (interior) c.nontrivial();
        c.label("decompose");
    }
    if (d.rational) c.label("rational");
}
