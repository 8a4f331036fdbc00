#include "pbt.h"
#include "scalar_prefix.h"
#include <map>
#include <set>
#include <tuple>
#include "cmmcore/vec.h"
#include "cmmcore/separability.h"
#include "cmmcore/ssx.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C46",
    "histories of up to 80 (rarely 3000) insertions, look-ups, updates and removals on a hash set or map keyed by space vectors, a set of plane vectors and a set of parameter pairs, "
    "compared with an ordered container keyed by the coordinates; keys are drawn from a pool whose members are equal, zeros of both signs, or at least 1e-12 (relative) apart, of magnitude up to 1e9. "
    "non-trivial: the history finds a key and misses another that differs from a present key by less than 0.05",
    600000, 6000000, 10};

using K = std::array<double, 3>;

template<typename H, typename E, typename T>
void law(const H &h, const E &e, const T &a, const T &b, bool same) {
    PBT_CHECK(e(a, b) == same && e(b, a) == same, "equality says ", e(a, b), "/", e(b, a), " for keys that are ", same ? "equal" : "different");
    if (same) PBT_CHECK(h(a) == h(b), "equal keys have different hashes");
}

void property(pbt::Src &s, pbt::Ctx &c) {
    int n = 2 + (int) s.below(14);
    double m = std::vector<double>{1, 0.01, 100, 1e6, 1e9}[s.below(5)];
    bool lattice = s.flag();
    std::vector<K> pool;
    auto coord = [&]() {
        switch (s.below(4)) {
            case 0: return (double) s.zint(3) * (lattice ? 1 : m);
            case 1: return s.zint(40) * 0.01 * m;
            case 2: return s.real(-1, 1) * m;
            default: return s.flag() ? 0.0 : -0.0;
        }
    };
    for (int i = 0; i < n; ++i) {
        K k{coord(), coord(), coord()};
        if (i && s.flag()) {    // next to an earlier key
            k = pool[s.below(pool.size())];
            double &x = k[s.below(3)];
            double step = std::vector<double>{0.01, 1e-3, 0.06, 1e-6, 1e-11}[s.below(5)];
            x += (s.flag() ? 1 : -1) * std::max(step, 1e-12 * std::fabs(x) * 2);
        }
        pool.push_back(k);
    }
    // different coordinates less than this apart may or may not be told from one another: no such pairs
    auto canon = [](K k) {
        for (double &x: k) if (x == 0) x = 0;
        return k;
    };
    for (size_t i = 0; i < pool.size();) {
        bool bad = false;
        for (size_t j = 0; j < i; ++j) for (int d = 0; d < 3; ++d) {
            double x = pool[i][d], y = pool[j][d];
            if (x != y && std::fabs(x - y) < 5e-12 + 1e-14 * std::fabs(x)) bad = true;
        }
        if (bad) pool.erase(pool.begin() + (long) i); else ++i;
    }
    std::string log;
    c.show([&](auto &o) {
        for (auto &k: pool) o << "(" << k[0] << "," << k[1] << "," << k[2] << ") ";
        o << log;
    });
    Vec3Set S;
    Vec3UnorderedMap M;
    std::unordered_set<vec2, Vec2Hash, Vec2Equal> S2;
    UnorderedSetPairDouble SP;
    std::set<K> RS;
    std::map<K, int> RM;
    std::set<K> R2;
    int steps = (int) (s.chance(1, 2000) ? s.range(1, 3000) : s.range(1, 80));
    bool found = false, near_miss = false;
    for (int t = 0; t < steps && s.more(); ++t) {
        K raw = pool[s.below(pool.size())], k = canon(raw), k2{k[0], k[1], 0};
        vec3 v(raw[0], raw[1], raw[2]);
        vec2 w(raw[0], raw[1]);
        std::pair<double, double> p(raw[0], raw[1]);
        int op = (int) s.below(4);
        if (log.size() < 600) log += pbt::str(" ", op, ":", raw[0], ",", raw[1], ",", raw[2]);
        bool in = RS.count(k) > 0, in2 = R2.count(k2) > 0;
        if (op == 0) {
            PBT_CHECK(S.insert(v).second == !in, "inserting a key that is ", in ? "" : "not ", "in the set of vectors");
            PBT_CHECK(S2.insert(w).second == !in2, "inserting a key that is ", in2 ? "" : "not ", "in the set of plane vectors");
            PBT_CHECK(SP.insert(p).second == !in2, "inserting a key that is ", in2 ? "" : "not ", "in the set of pairs");
            M[v] = t;
            RS.insert(k);
            R2.insert(k2);
            RM[k] = t;
        } else if (op == 1) {
            PBT_CHECK(S.erase(v) == in && S2.erase(w) == in2 && SP.erase(p) == in2 && M.erase(v) == in, "removing a key");
            RS.erase(k);
            R2.erase(k2);
            RM.erase(k);
        } else {
            PBT_CHECK(contains(S, v) == in, "the set of vectors says ", contains(S, v), " for a key that is ", in ? "" : "not ", "in it");
            PBT_CHECK((S2.count(w) > 0) == in2, "the set of plane vectors");
            PBT_CHECK((SP.count(p) > 0) == in2, "the set of pairs");
            auto it = M.find(v);
            PBT_CHECK((it != M.end()) == in, "the map finds a key that is ", in ? "" : "not ", "in it");
            if (in) PBT_CHECK(it->second == RM[k], "the value of a key");
            found = found || in;
            if (!in) for (auto &q: RS) near_miss = near_miss || (std::fabs(q[0] - k[0]) < 0.05 && std::fabs(q[1] - k[1]) < 0.05 && std::fabs(q[2] - k[2]) < 0.05);
        }
        PBT_CHECK(S.size() == RS.size() && S2.size() == R2.size() && SP.size() == R2.size() && M.size() == RM.size(), "sizes ", S.size(), " ", S2.size(), " ", SP.size(), " ", M.size(), " expected ", RS.size(), " ", R2.size());
    }
    for (size_t i = 0; i < pool.size(); ++i) for (size_t j = 0; j <= i; ++j) {
        auto &a = pool[i], &b = pool[j];
        law(Vec3Hash{}, Vec3Equal{}, vec3(a[0], a[1], a[2]), vec3(b[0], b[1], b[2]), a == b);
        law(Vec2Hash{}, Vec2Equal{}, vec2(a[0], a[1]), vec2(b[0], b[1]), a[0] == b[0] && a[1] == b[1]);
        law(PairDoubleHash_t{}, PairDoubleEqual_t{}, std::make_pair(a[0], a[1]), std::make_pair(b[0], b[1]), a[0] == b[0] && a[1] == b[1]);
    }
    if (found && near_miss) c.nontrivial();
}
