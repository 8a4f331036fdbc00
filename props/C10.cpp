#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C10",
    "surfaces of degrees 1..8 with different sizes and knots in u and v; 1..6 insertions in random directions at interior parameters and existing knots, total multiplicity within the degree. "
    "non-trivial: insertions in both directions, or a repeated insertion",
    160000, 2000000, 8};

void property(pbt::Src &s, pbt::Ctx &c) {
    gen::SurfOpt so;
    so.extra = 3;
    auto d = gen::surface(s, so);
    c.show([&](auto &o) { o << d; });
    auto r = d.ref();
    NURBSSurface k = glue::surface(d);
    double tol = 4e-9 * d.scale() + 1e-12;
    int rounds = 1 + (int) s.below(6);
    int dirs = 0, same = 0;
    for (int i = 0; i < rounds; ++i) {
        int dir = (int) s.below(2);
        auto &kn = dir ? k._knots_v : k._knots_u;
        int deg = dir ? d.q : d.p;
        double t;
        auto ds = gen::distinct(kn);
        if (s.chance(1, 3) && ds.size() > 2) t = ds[1 + s.below(ds.size() - 2)];
        else t = gen::inside(s, kn, 0.05);
        int mult = (int) std::count(kn.begin(), kn.end(), t);
        if (find_multiplicity(t, kn) != mult || mult >= deg) continue;
        int cnt = s.range(1, deg - mult);
        if (mult || cnt > 1) same = 1;
        c.show([&](auto &o) { o << " insert " << t << " x" << cnt << (dir ? " v" : " u"); });
        NURBSSurface b = k;
        double tq = mult && s.chance(1, 3) ? gen::beside(s, t) : t;  // rounding beside a knot means the knot
        switch (s.below(2)) {
            case 0: k.insert_knot(tq, dir, cnt); break;
            default: dir ? k.insert_knot_v(tq, cnt) : k.insert_knot_u(tq, cnt);
        }
        dirs |= 1 << dir;
        PBT_CHECK(k._degree == b._degree, "degree");
        PBT_CHECK(k.shape()[dir] == b.shape()[dir] + cnt && k.shape()[1 - dir] == b.shape()[1 - dir], "shape ", k.shape()[0], "x", k.shape()[1], " after inserting ", cnt,
                  " into direction ", dir, " of ", b.shape()[0], "x", b.shape()[1]);
        PBT_CHECK(k.control_points().size() == k.shape()[0], "rows");
        for (auto &row: k.control_points()) PBT_CHECK(row.size() == k.shape()[1], "columns");
        glue::valid_clamped(k._knots_u, d.p, k.shape()[0], "u knots");
        glue::valid_clamped(k._knots_v, d.q, k.shape()[1], "v knots");
        auto want = dir ? b._knots_v : b._knots_u;
        want.insert(std::upper_bound(want.begin(), want.end(), t), cnt, t);
        PBT_CHECK((dir ? k._knots_v : k._knots_u) == want, "knots of the refined direction");
        PBT_CHECK((dir ? k._knots_u : k._knots_v) == (dir ? b._knots_u : b._knots_v), "knots of the other direction");
        PBT_CHECK(k.interval() == b.interval(), "domain");
        auto g = glue::as_ref(k);
        auto du = gen::distinct(k._knots_u), dv = gen::distinct(k._knots_v);
        for (int j = 0; j < 6; ++j) {
            double u = j == 0 ? (dir ? gen::param(s, k._knots_u) : t) : j == 1 ? gen::param(s, k._knots_u) : gen::inside(s, k._knots_u, 0);
            double v = j == 0 ? (dir ? t : gen::param(s, k._knots_v)) : j == 1 ? gen::param(s, k._knots_v) : gen::inside(s, k._knots_v, 0);
            auto w = r.eval(u, v);
            vec3 x;
            k.evaluate(u, v, x);
            PBT_CHECK(ref::dist(w, glue::to3(x)) <= tol, "the surface moved at (", u, ",", v, ") by ", (double) ref::dist(w, glue::to3(x)));
            PBT_CHECK(ref::dist(w, g.eval(u, v)) <= tol, "the control net defines another surface at (", u, ",", v, ")");
        }
    }
    if (dirs == 3 || same) c.nontrivial();
    if (d.rational) c.label("rational");
    if (dirs == 3) c.label("both directions");
}
