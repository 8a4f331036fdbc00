#include "pbt.h"
#include "cmmcore/binom.h"
const pbt::Spec SPEC = {"C32",
    "every run checks the whole table once (all 0 <= k <= n <= 30 against Pascal's rule in 64 bits), each case then draws n and k, inside the triangle, just outside it or far outside: zero right of and left of the triangle, rejected with an exception above and below the table. "
    "non-trivial: 0 < k < n",
    2400000, 24000000, 8};
static long long want(int n, int k) {
    static long long P[31][31];
    static bool done = false;
    if (!done) {
        for (int i = 0; i <= 30; ++i) for (int j = 0; j <= i; ++j) P[i][j] = j == 0 || j == i ? 1 : P[i - 1][j - 1] + P[i - 1][j];
        done = true;
        for (int i = 0; i <= 30; ++i)
            for (int j = 0; j <= 30; ++j) {
                long long w = j > i ? 0 : P[i][j];
                PBT_CHECK(cmmcore::binomial_coefficient(i, j) == w, "C(", i, ",", j, ") is ", cmmcore::binomial_coefficient(i, j), ", expected ", w);
            }
    }
    return k < 0 || k > n ? 0 : P[n][k];
}
void property(pbt::Src &s, pbt::Ctx &c) {
    int n, k;
    switch (s.below(4)) {
        case 0: case 1: n = (int) s.below(31), k = (int) s.below(n + 1); break;
        case 2: n = (int) s.below(31), k = s.range(-3, 40); break;
        default: n = s.flag() ? s.range(-4, 36) : s.zint(2000000000), k = s.flag() ? s.range(-4, 36) : s.zint(2000000000);
    }
    c.show([&](auto &o) { o << "C(" << n << "," << k << ")"; });
    if (n >= 0 && n <= 30) {
        long long w = want(n, k);
        int g = cmmcore::binomial_coefficient(n, k);
        PBT_CHECK(g == w, "C(", n, ",", k, ") is ", g, ", expected ", w);
        if (k > 0 && k < n) c.nontrivial();
        c.label(k < 0 || k > n ? "outside the triangle" : "inside");
        return;
    }
    c.label("outside the table");
    bool threw = false;
    int g = 0;
    try { g = cmmcore::binomial_coefficient(n, k); } catch (const std::exception &) { threw = true; }
    PBT_CHECK(threw || (g == 0 && (k < 0 || k > n)), "C(", n, ",", k, ") outside the table answers ", g);
}
