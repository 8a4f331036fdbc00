#include "pbt.h"
#include "cmmcore/vec.h"
#include "cmmcore/gjk.h"
#include <sstream>
using namespace cmmcore;
typedef long double ld;
const pbt::Spec SPEC = {"C43",
    "pairs of 2-, 3- and 4-component vectors whose components are zero, small integers, fractions, numbers spread over 2^-60..2^60, or multiples and perpendiculars of one another, and batches of 0 to 40 vectors; every operation against its definition evaluated in extended precision, with a bound of a few units in the last place of the sum of its terms. "
    "non-trivial: two vectors neither of which is zero and that are not multiples of one another",
    700000, 30000000, 10};

static const double E = std::numeric_limits<double>::epsilon();
static double comp(pbt::Src &s, int mode) {
    switch (mode) {
        case 0: return s.zint(5);
        case 1: return s.zint(1000) / 8.0;
        case 2: return s.coord(100);
        default: return s.zint(1 << 20) * std::ldexp(1.0, s.range(-70, 50));
    }
}
template<int N> struct V { std::array<double, N> a; };
template<int N> ld dotl(const V<N> &a, const V<N> &b) { ld r = 0; for (int i = 0; i < N; ++i) r += (ld) a.a[i] * b.a[i]; return r; }
template<int N> ld dota(const V<N> &a, const V<N> &b) { ld r = 0; for (int i = 0; i < N; ++i) r += fabsl((ld) a.a[i] * b.a[i]); return r; }
template<class X, int N> X make(const V<N> &v) {
    if constexpr (N == 2) return X(v.a[0], v.a[1]);
    else if constexpr (N == 3) return X(v.a[0], v.a[1], v.a[2]);
    else return X(v.a[0], v.a[1], v.a[2], v.a[3]);
}
static void near(ld got, ld want, ld tol, const char *what) {
    PBT_CHECK(fabsl(got - want) <= tol, what, ": ", (double) got, " expected ", (double) want, " +- ", (double) tol);
}
template<class X, int N> void is(const X &x, std::array<ld, N> want, ld rel, const char *what) {
    for (int i = 0; i < N; ++i) near(x[i], want[i], rel * fabsl(want[i]) + 1e-300L, what);
}
// what all of them have
template<class X, int N> void common(pbt::Src &s, pbt::Ctx &c, const V<N> &a, const V<N> &b, double k) {
    X x = make<X, N>(a), y = make<X, N>(b);
    X z(a.a);
    PBT_CHECK(x.size() == N);
    for (int i = 0; i < N; ++i) {
        PBT_CHECK(x[i] == a.a[i] && ((const X &) x)[i] == a.a[i] && z[i] == a.a[i], "component ", i);
        X w = x;
        w[i] = 7;
        for (int j = 0; j < N; ++j) PBT_CHECK(w[j] == (i == j ? 7 : a.a[j]), "setting component ", i, " changes component ", j);
    }
    for (size_t i: {(size_t) N, (size_t) N + 1, (size_t) -1}) {
        int t = 0;
        try { (void) x[i]; } catch (const std::exception &) { t++; }
        try { (void) ((const X &) x)[i]; } catch (const std::exception &) { t++; }
        PBT_CHECK(t == 2, "component ", i, " exists");
    }
    X v(k);
    for (int i = 0; i < N; ++i) PBT_CHECK(v[i] == k, "vector of one value");
    X st;
    st.set(x);
    PBT_CHECK(st == x, "set");
    std::array<ld, N> w;
    auto each = [&](auto f) { for (int i = 0; i < N; ++i) w[i] = f((ld) a.a[i], (ld) b.a[i]); return w; };
    is<X, N>(-x, each([](ld p, ld) { return -p; }), 0, "negation");
    is<X, N>(x - y, each([](ld p, ld q) { return p - q; }), E, "difference");
    is<X, N>(x * k, each([&](ld p, ld) { return p * k; }), E, "scaling");
    is<X, N>(x * y, each([](ld p, ld q) { return p * q; }), E, "product by components");
    X t = x;
    t += y;
    is<X, N>(t, each([](ld p, ld q) { return p + q; }), E, "sum in place");
    t = x;
    t -= y;
    is<X, N>(t, each([](ld p, ld q) { return p - q; }), E, "difference in place");
    if constexpr (N > 2) {
        is<X, N>(x + y, each([](ld p, ld q) { return p + q; }), E, "sum");
        X r;
        x.add(y, r);
        PBT_CHECK(r == x + y, "add");
        x.sub(y, r);
        PBT_CHECK(r == x - y, "sub");
        if (k != 0) is<X, N>(x / k, each([&](ld p, ld) { return p / k; }), 2 * E, "division");
        bool nz = true;
        for (double q: b.a) nz = nz && q != 0;
        if (nz) is<X, N>(x / y, each([&](ld p, ld q) { return p / q; }), 2 * E, "division by components");
    }
    if constexpr (N < 4) {
        t = x;
        t *= k;
        is<X, N>(t, each([&](ld p, ld) { return p * k; }), E, "scaling in place");
        if (k != 0) {
            t = x;
            t /= k;
            is<X, N>(t, each([&](ld p, ld) { return p / k; }), 2 * E, "division in place");
        }
    }
    ld d = dotl(a, b), da = dota(a, b), aa = dotl(a, a), bb = dotl(b, b);
    near(x.dot(y), d, 4 * E * da, "dot product");
    PBT_CHECK(x.dot(y) == y.dot(x), "dot product is not symmetric");
    near(x.sqLength(), aa, 4 * E * aa, "squared length");
    near(x.length(), sqrtl(aa), 4 * E * sqrtl(aa), "length");
    ld dd = 0;
    for (int i = 0; i < N; ++i) dd += ((ld) a.a[i] - b.a[i]) * ((ld) a.a[i] - b.a[i]);
    near(x.distance(y), sqrtl(dd), 6 * E * sqrtl(dd), "distance");
    near(x.distanceSq(y), dd, 6 * E * dd, "squared distance");
    PBT_CHECK(x.distance(y) == y.distance(x), "distance is not symmetric");
    PBT_CHECK(x == x && (x == y) == (y == x), "equality");
    bool eq = true, clear = false;
    for (int i = 0; i < N; ++i) eq = eq && a.a[i] == b.a[i], clear = clear || std::fabs(a.a[i] - b.a[i]) > 2 * E;
    if (eq) PBT_CHECK(x == y, "equal components, but not equal");
    if (clear) PBT_CHECK(!(x == y), "different components, but equal");
    if constexpr (N == 3) {   // the order used to keep vectors in sets: by x, then y, then z
        PBT_CHECK((x < y) == (a.a < b.a), "order of vectors");
        PBT_CHECK(!(x < x), "a vector is before itself");
    }
    // projection onto the other one
    if (bb > 0) {
        X p = x.project(y);
        ld la = sqrtl(aa);
        for (int i = 0; i < N; ++i) near(p[i], b.a[i] * d / bb, 20 * E * la, "projection");
    }
}
template<class X, int N> void units(const V<N> &a, const V<N> &b, double k, bool multiple) {
    X x = make<X, N>(a), y = make<X, N>(b);
    ld la = sqrtl(dotl(a, a)), lb = sqrtl(dotl(b, b));
    if (la > 1e-14L) {
        X u = x.unit(), v = x;
        v.unitize();
        PBT_CHECK(u == v, "unit and unitize differ");
        for (int i = 0; i < N; ++i) near(u[i], a.a[i] / la, 6 * E * fabsl(a.a[i] / la) + 4 * E, "unit vector");
        near(u.length(), 1, 8 * E, "length of the unit vector");
    }
    if (la > 1e-14L && lb > 1e-14L) {
        bool c = x.collinear(y);
        PBT_CHECK(c == y.collinear(x), "collinearity is not symmetric");
        ld si2 = 1 - dotl(a, b) / la / lb * (dotl(a, b) / la / lb);
        if (multiple) PBT_CHECK(c, "a multiple is not collinear");
        else if (si2 > 1e-12L) PBT_CHECK(!c, "collinear with an angle of sine ", (double) sqrtl(si2));
    }
}

void property(pbt::Src &s, pbt::Ctx &c) {
    int ma = (int) s.below(4), mb = (int) s.below(4);
    V<4> a, b;
    for (double &x: a.a) x = comp(s, ma);
    for (double &x: b.a) x = comp(s, mb);
    int rel = s.pick({4, 1, 1, 1});
    bool multiple = false;
    double k = comp(s, (int) s.below(3));
    if (rel == 1 && k != 0) {
        for (int i = 0; i < 4; ++i) b.a[i] = a.a[i] * k;
        multiple = true;
        c.label("multiples");
    } else if (rel == 2) {
        b = a;
        multiple = true;
    } else if (rel == 3) {
        b.a = {-a.a[1], a.a[0], 0, b.a[3]};
        c.label("perpendicular");
    }
    c.show([&](auto &o) { o << "a"; for (double x: a.a) o << " " << x; o << " b"; for (double x: b.a) o << " " << x; o << " k " << k; });
    V<2> a2{{a.a[0], a.a[1]}}, b2{{b.a[0], b.a[1]}};
    V<3> a3{{a.a[0], a.a[1], a.a[2]}}, b3{{b.a[0], b.a[1], b.a[2]}};
    if (!multiple && dotl(a3, a3) > 0 && dotl(b3, b3) > 0) c.nontrivial();
    common<vec2, 2>(s, c, a2, b2, k);
    common<vec3, 3>(s, c, a3, b3, k);
    common<vec4, 4>(s, c, a, b, k);
    units<vec2, 2>(a2, b2, k, multiple);
    units<vec3, 3>(a3, b3, k, multiple);
    // two components
    vec2 p(a.a[0], a.a[1]), q(b.a[0], b.a[1]);
    ld cx = (ld) p.x * q.y - (ld) p.y * q.x, cxa = fabsl((ld) p.x * q.y) + fabsl((ld) p.y * q.x);
    near(cross(p, q), cx, 2 * E * cxa, "plane cross product");
    PBT_CHECK(dot(p, q) == p.dot(q), "dot");
    PBT_CHECK(vec2(p, q) == q - p, "vector between points");
    if (dotl(b2, b2) > 0) near(p.projection(q), dotl(a2, b2) / dotl(b2, b2), 12 * E * dota(a2, b2) / dotl(b2, b2), "projection coefficient");
    vec2 r;
    r.set(p.x, p.y);
    PBT_CHECK(r == p);
    r.set(a2.a);
    PBT_CHECK(r == p);
    r.set(k);
    PBT_CHECK(r.x == k && r.y == k);
    int thrown = 0;
    try { vec2(0, 0).unit(); } catch (const std::exception &) { thrown++; }
    try { vec2 z(0, 0); z.unitize(); } catch (const std::exception &) { thrown++; }
    try { vec2 z(1, 0); z /= 0; } catch (const std::exception &) { thrown++; }
    PBT_CHECK(thrown == 3, "division by zero is not reported");
    // three
    vec3 x(a.a[0], a.a[1], a.a[2]), y(b.a[0], b.a[1], b.a[2]), z, w;
    z = x.cross(y);
    for (int i = 0; i < 3; ++i) {
        int j = (i + 1) % 3, l = (i + 2) % 3;
        ld t = (ld) a.a[j] * b.a[l] - (ld) a.a[l] * b.a[j], ta = fabsl((ld) a.a[j] * b.a[l]) + fabsl((ld) a.a[l] * b.a[j]);
        near(z[i], t, 2 * E * ta, "cross product");
    }
    x.cross(y, w);
    PBT_CHECK(z == w, "forms of the cross product differ");
    PBT_CHECK(y.cross(x) == -z, "cross product is not antisymmetric");
    vec4 c4;
    cross(x, y, c4);
    PBT_CHECK(c4.x == z.x && c4.y == z.y && c4.z == z.z && c4.w == 1, "forms of the cross product differ");
    PBT_CHECK(x.dot(y.x, y.y, y.z) == x.dot(y) && dot(x, y) == x.dot(y), "forms of the dot product differ");
    PBT_CHECK(dist(x, y) == x.distance(y) && dist2(x, y) == x.distanceSq(y) && mag2(x) == x.sqLength(), "forms of distance and length differ");
    PBT_CHECK(k * x == x * k, "scaling from the left");
    double e0, e1, e2;
    assign(x, e0, e1, e2);
    PBT_CHECK(e0 == x.x && e1 == x.y && e2 == x.z, "assign");
    vec3 n = x;
    n.normalize();
    PBT_CHECK(n == x.unit(), "normalize");
    PBT_CHECK((vec3(p.x, p.y, 5) == p), "comparison with a plane vector");
    w.set(x.x, x.y, x.z);
    PBT_CHECK(w == x);
    w.set(a3.a);
    PBT_CHECK(w == x);
    if (dotl(b3, b3) > 0) {
        ld la = sqrtl(dotl(a3, a3));
        vec3 v = vectorProjection(x, y), v2;
        vectorProjection(x, y, v2);
        PBT_CHECK(v == v2, "forms of the projection differ");
        for (int i = 0; i < 3; ++i) near(v[i], b.a[i] * dotl(a3, b3) / dotl(b3, b3), 20 * E * la, "vector projection");
    }
    // spherical coordinates: radius, angle from z, azimuth
    ld rr = sqrtl(dotl(a3, a3));
    if (rr > 0) {
        vec3 sp, back;
        vec2 tp;
        cartesian_to_spherical(x, sp);
        cartesian_to_spherical(x, tp);
        near(sp.x, rr, 4 * E * rr, "radius");
        PBT_CHECK(sp.y >= 0 && sp.y <= 3.1415926535897936 && std::fabs(sp.z) <= 3.1415926535897936, "angles out of range");
        PBT_CHECK(tp.x == sp.y && tp.y == sp.z, "forms of the spherical coordinates differ");
        near(sp.y, atan2l(hypotl(x.x, x.y), x.z), 8 * E, "polar angle");
        near(sp.z, atan2l(x.y, x.x), 8 * E, "azimuth");
        spherical_to_cartesian(sp, back);
        for (int i = 0; i < 3; ++i) near(back[i], x[i], 20 * E * rr, "back from spherical coordinates");
        spherical_to_cartesian(tp, back);
        for (int i = 0; i < 3; ++i) near(back[i], x[i] / rr, 20 * E, "back from the direction");
    }
    // four: homogeneous points
    vec4 h(a.a[0], a.a[1], a.a[2], a.a[3]), g;
    if (a.a[3] != 0) {
        vec3 t = h.to_vec3(), t2;
        vec3 &ref = h.to_vec3(t2);
        for (int i = 0; i < 3; ++i) near(t[i], (ld) a.a[i] / a.a[3], 2 * E * fabsl((ld) a.a[i] / a.a[3]), "projected point");
        PBT_CHECK(t == t2 && &ref == &t2, "forms of the projected point differ");
        vec3 hc;
        h.cross(y, hc);
        PBT_CHECK(hc == h.cross(y), "forms of the cross product differ");
        vec3 want = t.cross(y);
        for (int i = 0; i < 3; ++i) near(hc[i], want[i], 8 * E * t.length() * y.length(), "cross product of the projected point");
        if (b.a[3] != 0) {
            vec4 o;
            vec4 gg(b.a[0], b.a[1], b.a[2], b.a[3]);
            h.cross(gg, o);
            PBT_CHECK(o == h.cross(gg), "forms of the cross product of points differ");
            vec3 t3 = t.cross(gg.to_vec3());
            for (int i = 0; i < 3; ++i) near(o[i], t3[i], 8 * E * t.length() * gg.to_vec3().length(), "cross product of projected points");
            PBT_CHECK(o.w == 1, "weight of the cross product");
        }
    }
    g.set(a.a[0], a.a[1], a.a[2], a.a[3]);
    PBT_CHECK(g == h);
    g.set(a.a);
    PBT_CHECK(g == h);
    g.set(x);
    PBT_CHECK(g.x == x.x && g.y == x.y && g.z == x.z && g.w == 1, "homogeneous form of a point");
    PBT_CHECK(g.to_vec3() == x, "homogeneous form of a point");
    // printing: a reader gets the components back to six digits
    {
        std::ostringstream o;
        o << x << p << h;
        std::string t = o.str();
        for (char &ch: t) if (ch == '[' || ch == ']' || ch == ',') ch = ' ';
        std::istringstream in(t);
        for (double want: {x.x, x.y, x.z, p.x, p.y, h.x, h.y, h.z, h.w}) {
            double v;
            PBT_CHECK((bool) (in >> v), "cannot read ", o.str());
            PBT_CHECK(std::fabs(v - want) <= 1e-5 * std::fabs(want), "prints ", v, " for ", want);
        }
    }
    // order of space vectors: by x, then y, then z
    {
        vec3 u = x, v = y;
        if (s.flag()) v.x = u.x;
        if (s.flag()) v.y = u.y;
        if (s.flag()) v.z = u.z;
        bool less = u.x < v.x || (u.x == v.x && (u.y < v.y || (u.y == v.y && u.z < v.z)));
        PBT_CHECK((u < v) == less, "order of vectors");
        PBT_CHECK(!(u < u) && !((u < v) && (v < u)), "order of vectors is not strict");
    }
    // batches
    if (s.chance(1, 4)) {
        size_t m = s.below(41);
        std::unique_ptr<double[]> bx(new double[m]), by(new double[m]), bz(new double[m]), res(new double[m]);
        std::vector<vec3> vs;
        for (size_t i = 0; i < m; ++i) {
            vec3 v(s.coord(10), s.coord(10), s.coord(10));
            vs.push_back(v);
            bx[i] = v.x, by[i] = v.y, bz[i] = v.z;
        }
        Vectors3 V3{m, bx.get(), by.get(), bz.get()};
        dot_product(x, V3, res.get());
        std::vector<vec2> tp;
        if (s.flag()) tp.resize(7);
        cartesian_to_spherical(vs, tp);
        PBT_CHECK(tp.size() == m, "batch size");
        for (size_t i = 0; i < m; ++i) {
            near(res[i], (ld) x.x * bx[i] + (ld) x.y * by[i] + (ld) x.z * bz[i], 4 * E * (fabsl((ld) x.x * bx[i]) + fabsl((ld) x.y * by[i]) + fabsl((ld) x.z * bz[i])), "batch dot product");
            vec2 one;
            cartesian_to_spherical(vs[i], one);
            PBT_CHECK(one.x == tp[i].x && one.y == tp[i].y, "batch spherical coordinates");
        }
        std::string f = format_vec3vec(vs);
        size_t commas = std::count(f.begin(), f.end(), '[');
        PBT_CHECK(commas == m + 1, "format of a list");
        c.label("batch");
    }
}
