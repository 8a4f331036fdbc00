#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C04",
    "random clamped curves (degree 1..8), splits at interior parameters, at knots of every multiplicity, and at/outside the ends; pieces are split again up to 3 times. "
    "non-trivial: a successful split strictly inside the domain",
    500000, 5000000, 10};

static void compare(const ref::Curve &want, const NURBSCurve &piece, double a, double b, double tol, const char *what) {
    auto got = glue::as_ref(piece);
    std::vector<double> ds = gen::distinct(piece.get_knots());
    for (size_t j = 0; j + 1 < ds.size(); ++j) {
        for (double f: {0.0, 0.23, 0.5, 0.83, 1.0}) {
            double u = f == 1.0 ? ds[j + 1] : ds[j] + f * (ds[j + 1] - ds[j]);
            auto x = want.eval(u);
            auto y = got.eval(u);
            vec3 z = piece(u);
            PBT_CHECK(ref::dist(x, y) <= tol, what, ": differs from the original at ", u, " by ", (double) ref::dist(x, y));
            PBT_CHECK(ref::dist(x, glue::to3(z)) <= tol, what, ": evaluates differently at ", u);
        }
    }
    PBT_CHECK(piece.interval()[0] == a && piece.interval()[1] == b, what, ": domain [", piece.interval()[0], ",", piece.interval()[1],
              "] expected [", a, ",", b, "]");
}

void property(pbt::Src &s, pbt::Ctx &c) {
    auto d = gen::curve(s);
    c.show([&](auto &o) { o << d; });
    auto r = d.ref();
    NURBSCurve k = glue::curve(d);
    const NURBSCurve original = k;
    double tol = 1e-9 * d.scale();
    int rounds = 1 + (int) s.below(3);
    for (int i = 0; i < rounds; ++i) {
        double a = k.interval()[0], b = k.interval()[1];
        auto ds = gen::distinct(k.get_knots());
        double t;
        bool bad = false;
        switch (s.below(6)) {
            case 0: t = s.flag() ? a : b; bad = true; break;
            case 1: t = s.flag() ? a - 0.01 - s.unit() : b + 0.01 + s.unit(); bad = true; break;
            case 2: t = s.of(ds); bad = (t == a || t == b); break;
            default: t = gen::inside(s, k.get_knots(), 0.03);
        }
        c.show([&](auto &o) { o << " split " << t; });
        const NURBSCurve before = k;
        if (bad) {
            c.label("rejected parameter");
            bool thrown = false;
            try { (void) k.split(t, s.flag()); } catch (const std::exception &) { thrown = true; }
            PBT_CHECK(thrown, "split at ", t, " of [", a, ",", b, "] was accepted");
            glue::same_curve(k, before, "source after a rejected split");
            continue;
        }
        int mult = (int) std::count(k.get_knots().begin(), k.get_knots().end(), t);
        if (mult) c.label("split at a knot");
        if (mult == d.p) c.label("split at a knot of full multiplicity");
        // next to a knot, at the distance rounding produces, means at the knot
        double tq = mult && s.chance(1, 3) ? gen::beside(s, t) : t;
        auto [l, q] = k.split(tq);
        glue::same_curve(k, before, "source after a split");
        glue::valid_clamped(l, "first piece");
        glue::valid_clamped(q, "second piece");
        PBT_CHECK(l.get_degree() == d.p && q.get_degree() == d.p, "degree of the pieces");
        compare(r, l, a, t, tol, "first piece");
        compare(r, q, t, b, tol, "second piece");
        vec3 e = l(t), f = q(t);
        PBT_CHECK(ref::dist(glue::to3(e), glue::to3(f)) <= tol, "pieces do not meet");
        c.nontrivial();
        if (s.flag()) {
            auto [ln, qn] = k.split(t, true);
            glue::valid_clamped(ln, "normalised first piece");
            glue::valid_clamped(qn, "normalised second piece");
            PBT_CHECK(ln.interval()[0] == 0 && std::fabs(ln.interval()[1] - 1) < 1e-12, "normalised domain");
            PBT_CHECK(qn.interval()[0] == 0 && std::fabs(qn.interval()[1] - 1) < 1e-12, "normalised domain");
            for (double x: {0.0, 0.17, 0.5, 0.77, 1.0}) {
                vec3 y = ln(x * ln.interval()[1]), z = qn(x * qn.interval()[1]);
                PBT_CHECK(ref::dist(r.eval(a + (ref::ld) x * ((ref::ld) t - a)), glue::to3(y)) <= 1e3 * tol, "normalised first piece at ", x);
                PBT_CHECK(ref::dist(r.eval(t + (ref::ld) x * ((ref::ld) b - t)), glue::to3(z)) <= 1e3 * tol, "normalised second piece at ", x);
            }
            c.label("normalised");
        }
        k = s.flag() ? q : l;
    }
    if (d.rational) c.label("rational");
    if (d.multi) c.label("repeated interior knots");
}
