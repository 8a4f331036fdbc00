#include "nurbs_glue.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C15",
    "knot vectors of degree 1..8 with arbitrary interior multiplicities and parameters inside, on and beside knots: span, basis values, multiplicities, distinct knots; curves and surfaces built on them: refinement with given and default knot lists and densities, removal of inserted and of essential knots, control points of derivatives, quotient rule for surface derivatives. "
    "non-trivial: at least one interior knot",
    900000, 9000000, 10};

static std::vector<ref::ld> cox(const std::vector<double> &U, int p, int i0, ref::ld u) {  // N_{i0-p..i0} by the recursive definition on span i0
    std::vector<ref::ld> N(U.size() - 1, 0);
    N[i0] = 1;
    for (int d = 1; d <= p; ++d)
        for (size_t i = 0; i + d + 1 < U.size(); ++i) {
            ref::ld a = 0, b = 0;
            if (U[i + d] > U[i]) a = (u - U[i]) / ((ref::ld) U[i + d] - U[i]) * N[i];
            if (U[i + d + 1] > U[i + 1]) b = (U[i + d + 1] - u) / ((ref::ld) U[i + d + 1] - U[i + 1]) * N[i + 1];
            N[i] = a + b;
        }
    return std::vector<ref::ld>(N.begin() + (i0 - p), N.begin() + (i0 + 1));
}
static ref::Curve curve_of(int p, const std::vector<double> &U, const std::vector<vec4> &P) {
    ref::Curve r;
    r.p = p;
    for (double u: U) r.U.push_back(u);
    for (auto &q: P) r.P.push_back({q.x, q.y, q.z, q.w});
    return r;
}
static ref::ld d4(const ref::P4 &a, const vec4 &b) {
    ref::ld s = 0;
    const double v[4] = {b.x, b.y, b.z, b.w};
    for (int k = 0; k < 4; ++k) s += (a[k] - v[k]) * (a[k] - v[k]);
    return sqrtl(s);
}

void property(pbt::Src &s, pbt::Ctx &c) {
    auto d = gen::curve(s);
    int p = d.p, n = (int) d.P.size() - 1;
    auto &U = d.U;
    if (n > p) c.nontrivial();
    auto ds = gen::distinct(U);
    auto P = glue::pts(d.P);
    double sc = d.scale(), W = 1;
    for (auto &q: d.P) W = std::max(W, q[3]);
    switch (s.below(6)) {
        case 0: {
            c.label("span and basis");
            double u = gen::param(s, U);
            if (s.chance(1, 4)) u = std::min(std::max(gen::beside(s, s.of(ds)), U.front()), U.back());
            c.show([&](auto &o) { o << d << " u=" << u; });
            int sp = find_span(n, p, u, U, false);
            PBT_CHECK(sp >= p && sp <= n, "span ", sp);
            PBT_CHECK(U[sp] < U[sp + 1], "span ", sp, " is empty");
            PBT_CHECK(U[sp] <= u && (u < U[sp + 1] || (u == U.back() && U[sp + 1] == u)), "span ", sp, " does not contain ", u);
            std::array<double, CMMCORE_DEG_STACK_SIZE> N{};
            basis_funs(sp, u, p, U, N);
            auto want = cox(U, p, sp, u);
            double sum = 0;
            for (int i = 0; i <= p; ++i) {
                PBT_CHECK(N[i] >= -1e-14, "negative basis function ", i, ": ", N[i]);
                PBT_CHECK(std::fabs((double) (N[i] - want[i])) <= 1e-11, "basis function ", i, " is ", N[i], " expected ", (double) want[i]);
                sum += N[i];
            }
            PBT_CHECK(std::fabs(sum - 1) <= 1e-12, "the basis sums to ", sum);
            std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE>> ders;
            int nd = 1 + (int) s.below(p);
            ders_basis_funs(sp, u, p, nd, U, ders);
            double h = ds[1] - ds[0];
            for (size_t i = 0; i + 1 < ds.size(); ++i) h = std::min(h, ds[i + 1] - ds[i]);
            double mag = 1;
            for (int k = 0; k <= nd; ++k) {
                double t = 0;
                for (int i = 0; i <= p; ++i) {
                    t += ders[k][i];
                    if (k == 0) PBT_CHECK(std::fabs(ders[0][i] - N[i]) <= 1e-12, "order 0 differs from the basis");
                }
                PBT_CHECK(std::fabs(t - (k == 0)) <= 1e-10 * mag, "derivatives of order ", k, " sum to ", t);
                mag *= 2 * p / h;
            }
            break;
        }
        case 1: {
            c.label("multiplicities");
            double t = s.of(ds);
            c.show([&](auto &o) { o << d << " knot " << t; });
            PBT_CHECK(find_multiplicity(t, U) == std::count(U.begin(), U.end(), t), "multiplicity of ", t);
            PBT_CHECK(find_multiplicity(gen::inside(s, U, 0.01), U) == 0, "multiplicity of a parameter between knots");
            std::vector<double> uq;
            auto V = U;
            uniqueKnots(V, uq);
            PBT_CHECK(uq == ds && V == U, "distinct knots");
            std::vector<double> k2{9, 9};
            std::vector<int> m2{1, 2, 3};
            getKnotMultiplicities(U, k2, m2);
            PBT_CHECK(k2 == ds && m2.size() == ds.size(), "knots with multiplicities");
            int tot = 0;
            for (size_t i = 0; i < ds.size(); ++i) {
                PBT_CHECK(m2[i] == std::count(U.begin(), U.end(), ds[i]), "multiplicity of knot ", i);
                tot += m2[i];
            }
            PBT_CHECK(tot == (int) U.size(), "multiplicities do not add up");
            getKnotMultiplicities({}, k2, m2);
            PBT_CHECK(k2.empty() && m2.empty(), "no knots");
            break;
        }
        case 2: {
            c.label("refinement");
            std::vector<double> list, add;
            int form = (int) s.below(4), density = 1;
            if (form == 0) density = s.range(1, 3);
            if (form == 1) for (int i = s.range(1, 4); i > 0; --i) list.push_back(s.chance(1, 3) ? s.of(ds) : gen::inside(s, U, 0.1));
            if (form >= 2) for (int i = s.range(1, 3); i > 0; --i) add.push_back(s.chance(1, 3) ? s.of(ds) : gen::inside(s, U, 0.1));
            if (form == 3) { list.push_back(gen::inside(s, U, 0.1)); if (s.flag()) list.push_back(list[0]); density = s.range(1, 2); }
            // keep new knots clear of each other: nearly equal ones are another matter
            auto all = ds;
            for (auto *v: {&list, &add}) for (double x: *v) all.push_back(x);
            std::sort(all.begin(), all.end());
            for (size_t i = 0; i + 1 < all.size(); ++i) if (all[i] != all[i + 1] && all[i + 1] - all[i] < 1e-4) return;
            c.show([&](auto &o) {
                o << d << " refine with";
                for (double x: list) o << " " << x;
                o << " and";
                for (double x: add) o << " " << x;
                o << " density " << density;
            });
            // what has to be inserted, by the documented rule
            std::set<double> base;
            if (list.empty()) base.insert(ds.begin(), ds.end()); else base.insert(list.begin(), list.end());
            base.insert(add.begin(), add.end());
            std::vector<double> X(base.begin(), base.end());
            for (int i = 1; i < density; ++i) {
                std::vector<double> Y;
                for (size_t j = 0; j + 1 < X.size(); ++j) Y.push_back(X[j]), Y.push_back(X[j] + (X[j + 1] - X[j]) / 2.0);
                Y.push_back(X.back());
                X = Y;
            }
            all = ds;
            all.insert(all.end(), X.begin(), X.end());
            std::sort(all.begin(), all.end());
            for (size_t i = 0; i + 1 < all.size(); ++i) if (all[i] != all[i + 1] && all[i + 1] - all[i] < 1e-5) return;
            auto want = U;
            for (double x: X) for (int m = (int) std::count(U.begin(), U.end(), x); m < p; ++m) want.push_back(x);
            std::sort(want.begin(), want.end());
            if (want == U) {
                bool thrown = false;
                try { (void) knot_refinement(p, U, P, list, add, density); } catch (const std::exception &) { thrown = true; }
                PBT_CHECK(thrown, "nothing to refine, yet no exception");
                return;
            }
            auto [Q, V] = knot_refinement(p, U, P, list, add, density);
            PBT_CHECK(V == want, "refined knots");
            PBT_CHECK(Q.size() == V.size() - p - 1, Q.size(), " control points for ", V.size(), " knots");
            auto a = d.ref(), b = curve_of(p, V, Q);
            for (int i = 0; i < 6; ++i) {
                double u = gen::param(s, V);
                PBT_CHECK(ref::dist(a.eval(u), b.eval(u)) <= 1e-8 * sc, "refinement moves the curve at ", u, " by ", (double) ref::dist(a.eval(u), b.eval(u)));
            }
            break;
        }
        case 3: {
            double t;
            int m;
            if (s.chance(1, 3) && ds.size() > 2) t = ds[1 + s.below(ds.size() - 2)];
            else t = gen::inside(s, U, 0.15);
            m = (int) std::count(U.begin(), U.end(), t);
            if (m >= p) return;
            double shortest = 1e300;   // next to nearly equal knots removal amplifies rounding beyond any tolerance
            for (size_t i = 0; i + 1 < ds.size(); ++i) shortest = std::min(shortest, ds[i + 1] - ds[i]);
            if (shortest < 1e-2 * (ds.back() - ds.front()) / ds.size()) return;
            int num = s.range(1, p - m);
            NURBSCurve k = glue::curve(d);
            k.insert_knot(t, num);
            int rem = s.range(1, num);
            double tol = s.flag() ? 1e-4 : 1e-7;
            c.show([&](auto &o) { o << d << " inserted " << t << " x" << num << " removing " << rem << " tol " << tol; });
            c.label("removal of inserted knots");
            bool plain = rem == 1 && sc * W <= 100 && s.flag();   // with the tolerance and count of the default arguments
            auto Q = plain ? knot_removal(p, k.get_knots(), k.get_control_points(), t) : knot_removal(p, k.get_knots(), k.get_control_points(), t, tol * std::max(1.0, sc * W), rem);
            PBT_CHECK((int) Q.size() == n + 1 + num - rem, "after removal there are ", Q.size(), " control points, expected ", n + 1 + num - rem);
            NURBSCurve e = glue::curve(d);
            if (num > rem) e.insert_knot(t, num - rem);
            for (size_t i = 0; i < Q.size(); ++i) {
                auto &x = e.get_control_points()[i];
                PBT_CHECK(d4({x.x, x.y, x.z, x.w}, Q[i]) <= 1e-6 * std::max(1.0, sc * W), "control point ", i, " after removal: ", Q[i].x, ",", Q[i].y, ",", Q[i].z, ",", Q[i].w, " expected ", x.x, ",", x.y, ",", x.z, ",", x.w);
            }
            break;
        }
        case 4: {
            if (ds.size() <= 2) return;
            double t = ds[1 + s.below(ds.size() - 2)];
            int m = (int) std::count(U.begin(), U.end(), t);
            int num = s.range(1, m);
            bool plain = num == 1 && s.flag();
            double tol = plain ? 1e-4 : 1e-6;
            c.show([&](auto &o) { o << d << " removing the essential knot " << t << " x" << num; });
            c.label("removal of arbitrary knots");
            auto Q = plain ? knot_removal(p, U, P, t) : knot_removal(p, U, P, t, tol, num);
            int removed = n + 1 - (int) Q.size();
            PBT_CHECK(removed >= 0 && removed <= num, "removed ", removed, " of ", num);
            auto V = U;
            auto it = std::find(V.begin(), V.end(), t);
            V.erase(it, it + removed);
            auto a = d.ref(), b = curve_of(p, V, Q);
            for (int i = 0; i < 6; ++i) {
                double u = gen::param(s, U);
                PBT_CHECK(ref::dist(a.eval(u), b.eval(u)) <= 1e3 * tol * (1 + sc), removed, " knots were removed although the curve changes at ", u, " by ", (double) ref::dist(a.eval(u), b.eval(u)));
            }
            break;
        }
        default: {
            c.label("derivative control points");
            gen::SurfOpt so;
            so.extra = 3;
            so.max_mult = 1;
            auto f = gen::surface(s, so);
            int nu = (int) f.P.size(), nv = (int) f.P[0].size();
            c.show([&](auto &o) { o << f; });
            double u = gen::inside(s, f.U, 0.02), v = gen::inside(s, f.V, 0.02);
            auto r = f.ref();
            int ord = s.range(1, 4);
            double hu = 1e300, hv = 1e300;
            for (size_t i = 0; i + 1 < f.U.size(); ++i) if (f.U[i + 1] > f.U[i]) hu = std::min(hu, f.U[i + 1] - f.U[i]);
            for (size_t i = 0; i + 1 < f.V.size(); ++i) if (f.V[i + 1] > f.V[i]) hv = std::min(hv, f.V[i + 1] - f.V[i]);
            double Wf = 1;
            for (auto &row: f.P) for (auto &q: row) Wf = std::max(Wf, q[3]);
            double mag = (1 + f.scale()) * Wf;
            // homogeneous mixed derivatives by the reference
            auto mixed = [&](int k, int l) -> ref::P4 {
                ref::Curve cv;
                cv.p = f.q;
                for (double x: f.V) cv.U.push_back(x);
                for (int j = 0; j < nv; ++j) {
                    ref::Curve cu;
                    cu.p = f.p;
                    for (double x: f.U) cu.U.push_back(x);
                    for (int i = 0; i < nu; ++i) cu.P.push_back({f.P[i][j][0], f.P[i][j][1], f.P[i][j][2], f.P[i][j][3]});
                    if (k > f.p) { cv.P.push_back({0, 0, 0, 0}); continue; }
                    for (int z = 0; z < k; ++z) cu = cu.deriv();
                    cv.P.push_back(cu.eval4(u));
                }
                if (l > f.q) return {0, 0, 0, 0};
                for (int z = 0; z < l; ++z) cv = cv.deriv();
                return cv.eval4(v);
            };
            if (s.flag()) {
                // curve_deriv_cpts on a window of a row
                int p1 = f.p, r1 = s.range(0, nu - 1), r2 = s.range(r1, nu - 1);
                std::vector<vec4> row;
                ref::Curve cu;
                cu.p = p1;
                for (double x: f.U) cu.U.push_back(x);
                for (int i = 0; i < nu; ++i) {
                    auto &q = f.P[i][0];
                    row.push_back(vec4(q[0], q[1], q[2], q[3]));
                    cu.P.push_back({q[0], q[1], q[2], q[3]});
                }
                int dd = std::min({ord, p1, r2 - r1});
                std::vector<std::vector<vec4>> PK;
                curve_deriv_cpts(p1, f.U, row, dd, r1, r2, PK);
                double mm = mag;
                for (int k = 0; k <= dd; ++k) {
                    for (int i = 0; i <= r2 - r1 - k; ++i)
                        PBT_CHECK(d4(cu.P[r1 + i], PK[k][i]) <= 1e-10 * mm, "curve derivative control point ", k, ",", i);
                    if (k < p1) cu = cu.deriv();
                    mm *= 2 * p1 / hu;
                }
            } else {
                // surface_deriv_cpts: control net indexed [v][u]
                std::vector<std::vector<vec4>> net(nv, std::vector<vec4>(nu));
                for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j) net[j][i] = vec4(f.P[i][j][0], f.P[i][j][1], f.P[i][j][2], f.P[i][j][3]);
                std::vector<int> rs{s.range(0, nu - 1), 0}, ss{s.range(0, nv - 1), 0};
                rs[1] = s.range(rs[0], nu - 1);
                ss[1] = s.range(ss[0], nv - 1);
                int o = std::min({ord, rs[1] - rs[0], ss[1] - ss[0]});
                std::vector<std::vector<std::vector<std::vector<vec4>>>> PKL;
                surface_deriv_cpts(4, {f.p, f.q}, f.U, f.V, net, {nu, nv}, rs, ss, o, PKL);
                // expectation by differencing the net
                int du = std::min(o, f.p), dv = std::min(o, f.q);
                std::vector<std::vector<ref::P4>> A(nu, std::vector<ref::P4>(nv));
                for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j) A[i][j] = {f.P[i][j][0], f.P[i][j][1], f.P[i][j][2], f.P[i][j][3]};
                double mk = mag;
                for (int k = 0; k <= du; ++k) {
                    auto B = A;
                    double ml = mk;
                    for (int l = 0; l <= dv && k + l <= o; ++l) {
                        for (int i = rs[0]; i <= rs[1] - k; ++i)
                            for (int j = ss[0]; j <= ss[1] - l; ++j)
                                PBT_CHECK(d4(B[i][j], PKL[k][l][i - rs[0]][j - ss[0]]) <= 1e-9 * ml, "surface derivative control point order ", k, ",", l, " index ", i, ",", j);
                        if (l < dv)
                            for (auto &row: B)
                                for (int j = 0; j + l + 1 < nv; ++j) {
                                    ref::ld den = (ref::ld) f.V[j + f.q + 1] - f.V[j + l + 1];
                                    for (int z = 0; z < 4; ++z) row[j][z] = (f.q - l) * (row[j + 1][z] - row[j][z]) / den;
                                }
                        ml *= 2 * f.q / hv;
                    }
                    if (k < du)
                        for (int i = 0; i + k + 1 < nu; ++i)
                            for (int j = 0; j < nv; ++j) {
                                ref::ld den = (ref::ld) f.U[i + f.p + 1] - f.U[i + k + 1];
                                for (int z = 0; z < 4; ++z) A[i][j][z] = (f.p - k) * (A[i + 1][j][z] - A[i][j][z]) / den;
                            }
                    mk *= 2 * f.p / hu;
                }
            }
            // quotient rule: the derivatives S_kl must satisfy Leibniz' rule for A = w S
            int o = std::min(ord, 3);
            std::vector<std::vector<vec4>> Aw(o + 1, std::vector<vec4>(o + 1)), S;
            std::vector<std::vector<ref::P4>> Ar(o + 1, std::vector<ref::P4>(o + 1));
            for (int k = 0; k <= o; ++k)
                for (int l = 0; l <= o; ++l) {
                    auto q = mixed(k, l);
                    Aw[k][l] = vec4((double) q[0], (double) q[1], (double) q[2], (double) q[3]);
                    for (int z = 0; z < 4; ++z) Ar[k][l][z] = z == 0 ? Aw[k][l].x : z == 1 ? Aw[k][l].y : z == 2 ? Aw[k][l].z : Aw[k][l].w;
                }
            rat_surface_derivs(Aw, o, S);
            static const int B[4][4] = {{1, 0, 0, 0}, {1, 1, 0, 0}, {1, 2, 1, 0}, {1, 3, 3, 1}};
            for (int k = 0; k <= o; ++k)
                for (int l = 0; l <= o; ++l)
                    for (int z = 0; z < 3; ++z) {
                        ref::ld sum = 0, size = 0;
                        for (int i = 0; i <= k; ++i)
                            for (int j = 0; j <= l; ++j) {
                                auto &q = S[k - i][l - j];
                                ref::ld t = (ref::ld) B[k][i] * B[l][j] * Ar[i][j][3] * (z == 0 ? q.x : z == 1 ? q.y : q.z);
                                sum += t;
                                size += fabsl(t);
                            }
                        PBT_CHECK(fabsl(sum - Ar[k][l][z]) <= 1e-12 * (size + fabsl(Ar[k][l][z])) + 1e-300, "derivative ", k, ",", l, " breaks the product rule: ", (double) sum, " vs ", (double) Ar[k][l][z]);
                    }
        }
    }
}
