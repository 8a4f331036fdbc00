#include "pbt.h"
#include <iomanip>
#include <iostream>
#include <sstream>
#include "cmmcore/vec.h"
#include "cmmcore/utils.h"
using namespace cmmcore;
const pbt::Spec SPEC = {"C49",
    "tables of 0 to 12 rows of 1 to 9 entries (numbers, texts, vectors; rows of unequal length), every column index up to one past the end; finite numbers of every magnitude and sign (integers, fractions, any bit pattern); lists of 0 to 12 integers, fractions or words; ranges and counts of random vectors. Columns are compared with a loop over the rows, texts are read back. "
    "non-trivial: a table of at least 2 rows and 2 columns and a list of at least 2 entries",
    400000, 6000000, 8};

static double number(pbt::Src &s) {
    switch (s.below(4)) {
        case 0: return s.zint(1000);
        case 1: return s.zint(1 << 20) / 1024.0;
        case 2: return s.coord(1e3);
        default: return s.zint(1 << 30) * std::ldexp(1.0, s.range(-900, 900));
    }
}
template<class T> bool same(const T &a, const T &b) { return a == b; }

template<class T, class F> void column(pbt::Src &s, size_t rows, size_t width, F make) {
    std::vector<std::vector<T>> m(rows);
    size_t least = width;
    for (auto &r: m) {
        size_t w = s.chance(1, 12) ? s.below(width + 1) : width;
        least = std::min(least, w);
        for (size_t i = 0; i < w; ++i) r.push_back(make());
    }
    auto kept = m;
    for (size_t k = 0; k <= width; ++k) {
        std::vector<T> col;
        if (s.flag()) col.resize(s.below(20));
        bool threw = false;
        try { vectorColumn(m, k, col); } catch (const std::exception &) { threw = true; }
        PBT_CHECK(m == kept, "taking a column changed the table");
        PBT_CHECK(threw == (rows && k >= least), "column ", k, " of a table whose shortest row has ", least, " entries is ", threw ? "refused" : "not refused");
        if (threw) continue;
        PBT_CHECK(col.size() == rows, "column ", k, " has ", col.size(), " entries of ", rows);
        for (size_t i = 0; i < rows; ++i) PBT_CHECK(col[i] == m[i][k], "entry ", i, " of column ", k);
    }
}

template<class T, class F> void list(pbt::Src &s, size_t n, F make) {
    std::vector<T> v;
    for (size_t i = 0; i < n; ++i) v.push_back(make());
    std::string t = vectorToString(v);
    PBT_CHECK(t.size() >= 2 && t.front() == '(' && t.back() == ')', "a list is written as ", t);
    std::vector<std::string> parts;
    std::string in = t.substr(1, t.size() - 2);
    for (size_t p = 0; n && p <= in.size();) {
        size_t q = in.find(',', p);
        if (q == std::string::npos) q = in.size();
        std::string w = in.substr(p, q - p);
        while (!w.empty() && w[0] == ' ') w.erase(0, 1);
        parts.push_back(w);
        p = q + 1;
    }
    PBT_CHECK(parts.size() == n && (n || in.empty()), "a list of ", n, " entries is written as ", t);
    for (size_t i = 0; i < n; ++i) {
        std::ostringstream o;
        o << v[i];
        PBT_CHECK(parts[i] == o.str(), "entry ", i, " of a list is written as ", parts[i], ", by itself it is ", o.str());
    }
}

void property(pbt::Src &s, pbt::Ctx &c) {
    size_t rows = s.below(13), width = 1 + s.below(9);
    int what = (int) s.below(3);
    c.show([&](auto &o) { o << "table of " << rows << " rows of " << width; });
    if (what == 0) column<double>(s, rows, width, [&] { return number(s); });
    else if (what == 1) column<std::string>(s, rows, width, [&] { return std::string(s.below(5), 'a' + (char) s.below(26)); });
    else column<std::vector<int>>(s, rows, width, [&] { return std::vector<int>(s.below(3), s.zint(9)); });
    // numbers as text
    for (int i = 0; i < 3; ++i) {
        double x = number(s);
        std::string t = formatReal(x);
        size_t used = 0;
        double y = 0;
        try { y = std::stod(t, &used); } catch (const std::exception &) { used = 0; }
        PBT_CHECK(used == t.size() && used, "the number ", x, " is written as ", t);
        PBT_CHECK(std::fabs(y - x) <= 1e-14 * std::fabs(x), "the number ", x, " is read back as ", y, " from ", t);
        double e = calc_epsilon(x);
        PBT_CHECK(e > 0, "the spacing at ", x, " is ", e);
        PBT_CHECK(e == calc_epsilon(-x), "the spacing at ", x, " depends on the sign");
        PBT_CHECK(e <= 4 * std::numeric_limits<double>::epsilon() * std::fabs(x) || e == std::numeric_limits<double>::denorm_min(), "the spacing at ", x, " is ", e);
        if (std::fabs(x) > 1e-9) PBT_CHECK(x + 2 * e != x || x - 2 * e != x, "the spacing at ", x, " is ", e, ", which makes no difference");
    }
    size_t n = s.below(13);
    if (s.flag()) list<int>(s, n, [&] { return s.zint(1000); });
    else if (s.flag()) list<double>(s, n, [&] { return s.zint(1000) / 8.0; });
    else list<std::string>(s, n, [&] { return std::string(1 + s.below(5), 'a' + (char) s.below(26)); });
    // random vectors stay in their range
    if (s.chance(1, 8)) {
        double lo = s.coord(100), hi = lo + std::fabs(s.coord(100));
        size_t k = s.below(30);
        std::vector<vec3> v(s.below(40), vec3(1e9, 1e9, 1e9));
        random_vectors3(lo, hi, k, v);
        PBT_CHECK(v.size() == k, k, " random vectors are ", v.size());
        v.push_back(random_vec3(lo, hi));
        for (auto &q: v) for (int i = 0; i < 3; ++i) PBT_CHECK(q[i] >= lo && q[i] <= hi, "a random component ", q[i], " is not between ", lo, " and ", hi);
        bool differ = k < 3 || hi - lo < 1e-6;
        for (auto &q: v) differ = differ || q.x != v[0].x;
        PBT_CHECK(differ, "random vectors are all the same");
        c.label("random vectors");
    }
    if (rows >= 2 && width >= 2 && n >= 2) c.nontrivial();
    c.label(what == 0 ? "numbers" : what == 1 ? "texts" : "lists");
}
