// Adaptive Simpson quadrature as published (Lyness' 1/15 estimate, tolerance halved per level), in long double.
// Used to tell a coincidental acceptance, which every implementation of the rule shares, from a defect:
// a check allows |error| <= small multiple of tol + the error the published rule makes on the same integrand.
#pragma once
namespace simp {
using ld = long double;
template<class F>
ld rec(const F &f, ld a, ld b, ld fa, ld fm, ld fb, ld S, ld tol, int depth) {
    ld m = (a + b) / 2, h = b - a, f1 = f((a + m) / 2), f2 = f((m + b) / 2);
    ld L = h / 12 * (fa + 4 * f1 + fm), R = h / 12 * (fm + 4 * f2 + fb);
    ld e = (L + R - S) / 15;
    if (depth <= 0 || (e < 0 ? -e : e) < tol) return L + R;
    return rec(f, a, m, fa, f1, fm, L, tol / 2, depth - 1) + rec(f, m, b, fm, f2, fb, R, tol / 2, depth - 1);
}
template<class F>
ld integrate(const F &f, ld a, ld b, ld tol, int depth = 20) {
    ld fa = f(a), fm = f((a + b) / 2), fb = f(b);
    return rec(f, a, b, fa, fm, fb, (b - a) / 6 * (fa + 4 * fm + fb), tol, depth);
}
}
