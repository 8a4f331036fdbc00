#include "scene.h"
using namespace cmmcore;
using scene::P3;
const pbt::Spec SPEC = {"C45",
    "pairs of clamped curves of degrees 1..6, rational or not, with arbitrary knots and domains, placed so that one of the four pairs of ends coincides, or no ends do, or the degrees differ; the joined curve is compared with both curves over their whole domains. "
    "non-trivial: the curves were joined and have different knots, control point counts or weights",
    720000, 7200000, 8};

static bool near_point(const P3 &a, const P3 &b, double eps) { return ref::dist(a, b) <= eps; }

void property(pbt::Src &s, pbt::Ctx &c) {
    gen::CurveOpt o;
    o.wide = false;   // ends are matched within an absolute tolerance
    o.pmin = o.pmax = s.range(1, 6);
    o.extra = 4;
    o.mag = 10;
    auto a = gen::curve(s, o);
    bool other_degree = s.chance(1, 20);
    if (other_degree) o.pmin = o.pmax = o.pmax == 6 ? 1 : o.pmax + 1;
    auto b = gen::curve(s, o);
    // the same weights at the ends may not be taken for granted
    if (s.chance(1, 3)) {
        double w = 0.25 * (1 + (double) s.below(16));
        for (auto &q: b.P) for (double &x: q) x *= w;
    }
    auto ends = [](const gen::CurveData &d, int e) {
        auto &q = e ? d.P.back() : d.P.front();
        return P3{(ref::ld) q[0] / q[3], (ref::ld) q[1] / q[3], (ref::ld) q[2] / q[3]};
    };
    int mode = (int) s.below(5);    // 0..3: which ends meet, 4: none
    int ea = mode & 1, eb = (mode >> 1) & 1;
    if (mode < 4) {
        // exactly: the end point of the second becomes that of the first
        scene::shift(b, ref::sub(ends(a, ea), ends(b, eb)));
        auto &q = eb ? b.P.back() : b.P.front();
        auto e = ends(a, ea);
        for (int k = 0; k < 3; ++k) q[k] = (double) (e[k] * q[3]);
        // the far ends lie on a line with the origin, so that only their weights tell them apart once the joint's agree
        if (s.chance(1, 8)) {
            auto &fa = ea ? a.P.front() : a.P.back();
            auto &ja = ea ? a.P.back() : a.P.front();
            auto &fb = eb ? b.P.front() : b.P.back();
            double sc = ja[3] / q[3], wt = 0.5 * (1 + (double) s.below(8));
            if (&fb != &q) {
                for (int k = 0; k < 3; ++k) fb[k] = fa[k] / sc;
                fb[3] = fa[3] / sc * wt;
                b.rational = true;
                c.label("far ends in line with the origin");
            }
        }
    }
    double sc = std::max(a.scale(), b.scale());
    // other coincidences make the choice ambiguous
    int meets = 0;
    bool close_call = false;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
        auto d = (double) ref::dist(ends(a, i), ends(b, j));
        if (d < 5e-11) ++meets, ea = i, eb = j;   // without a chosen pair ends may meet by chance
        else if (d < 1e-6) close_call = true;
    }
    if (ref::dist(ends(a, 0), ends(a, 1)) < 1e-6 || ref::dist(ends(b, 0), ends(b, 1)) < 1e-6) { c.label("closed"); return; }
    if (close_call || meets > 1) { c.label("several ends meet"); return; }
    c.show([&](auto &w) { w << "first " << a << " second " << b << " mode " << mode; });
    NURBSCurve A = glue::curve(a), B = glue::curve(b), A0 = A, B0 = B, R;
    bool ok = A.join(B, R);
    glue::same_curve(A, A0, "the first curve");
    glue::same_curve(B, B0, "the second curve");
    if (meets == 0 || other_degree) {
        PBT_CHECK(!ok, meets == 0 ? "curves that share no end are joined" : "curves of different degrees are joined");
        c.label(meets == 0 ? "apart" : "different degrees");
        return;
    }
    PBT_CHECK(ok, "curves that share an end are not joined");
    glue::valid_clamped(R, "the joined curve");
    PBT_CHECK(R._degree == A._degree, "degree ", R._degree);
    double la = a.U.back() - a.U.front(), lb = b.U.back() - b.U.front(), r0 = R._interval[0], r1 = R._interval[1];
    double lam = 1e-12 * (std::fabs(r0) + std::fabs(r1) + std::fabs(b.U.front()) + std::fabs(b.U.back()) + std::fabs(a.U.front()) + std::fabs(a.U.back()));
    PBT_CHECK(std::fabs(r1 - r0 - la - lb) <= lam, "the domain of the joined curve is ", r1 - r0, " long, those of its parts ", la, " and ", lb);
    auto rr = glue::as_ref(R);
    auto ra = a.ref(), rb = b.ref();
    // the first curve runs towards the joint, the second away from it
    bool fa = ea == 1, fb = eb == 0;
    auto cell = [](const std::vector<double> &kn) {
        double m = kn.back() - kn.front();
        for (size_t i = 0; i + 1 < kn.size(); ++i) if (kn[i + 1] > kn[i]) m = std::min(m, kn[i + 1] - kn[i]);
        return m;
    };
    double eps = 1e-8 * sc * (1 + lam / 1e-12 * 1e-15 / std::min(cell(a.U), cell(b.U)) * 1e4);
    for (int i = 0; i < 8; ++i) {
        double x = i == 0 ? 0 : i == 1 ? 1 : s.unit();
        double ta = fa ? a.U.front() + la * x : a.U.back() - la * x, tr = r0 + la * x;
        PBT_CHECK(near_point(rr.eval(std::min(tr, r1)), ra.eval(std::min(a.U.back(), std::max(a.U.front(), ta))), eps), "the first curve at ", ta, " and the joined curve at ", tr, " differ");
        double tb = fb ? b.U.front() + lb * x : b.U.back() - lb * x;
        tr = r0 + la + lb * x;
        PBT_CHECK(near_point(rr.eval(std::min(tr, r1)), rb.eval(std::min(b.U.back(), std::max(b.U.front(), tb))), eps), "the second curve at ", tb, " and the joined curve at ", tr, " differ");
        vec3 y;
        R.evaluate(std::min(tr, r1), y);
        PBT_CHECK(near_point(glue::to3(y), rr.eval(std::min(tr, r1)), 1e-9 * sc), "evaluation of the joined curve");
    }
    // its box
    auto &bb = R.bbox();
    for (auto &q: R.control_points) {
        vec3 p = q.to_vec3();
        for (int k = 0; k < 3; ++k) PBT_CHECK(p[k] >= bb.min[k] && p[k] <= bb.max[k], "the box of the joined curve");
    }
    if (a.U != b.U || a.P.size() != b.P.size() || a.rational || b.rational) c.nontrivial();
    c.label(pbt::str("joined ", mode));
}
