// Model of an n-dimensional array view: the flat positions of its elements, in row-major order.
#pragma once
#include "pbt.h"
namespace nd {
struct View {
    std::vector<size_t> shape, at;   // at: position in the buffer of every element
    size_t total() const {
        size_t n = 1;
        for (auto d: shape) n *= d;
        return n;
    }
};
inline View full(const std::vector<size_t> &shape) {
    View v;
    v.shape = shape;
    for (size_t i = 0, n = v.total(); i < n; ++i) v.at.push_back(i);
    return v;
}
inline std::vector<std::vector<size_t>> indices(const std::vector<size_t> &shape) {   // row-major
    std::vector<std::vector<size_t>> r{{}};
    for (auto d: shape) {
        std::vector<std::vector<size_t>> q;
        for (auto &i: r) for (size_t k = 0; k < d; ++k) { q.push_back(i); q.back().push_back(k); }
        r = q;
    }
    return r;
}
// keep, per dimension, a list of positions; an empty optional drop means the dimension disappears
inline View take(const View &v, const std::vector<std::vector<size_t>> &pos, const std::vector<bool> &drop) {
    View r;
    std::vector<size_t> lens;
    for (size_t d = 0; d < v.shape.size(); ++d) {
        lens.push_back(pos[d].size());
        if (!drop[d]) r.shape.push_back(pos[d].size());
    }
    for (auto &i: indices(lens)) {
        size_t f = 0;
        for (size_t d = 0; d < v.shape.size(); ++d) f = f * v.shape[d] + pos[d][i[d]];
        r.at.push_back(v.at[f]);
    }
    return r;
}
// positions a Python slice start:stop:step selects in a dimension of n, None where absent
inline std::vector<size_t> py_slice(long long n, bool hs, long long s, bool he, long long e, long long st) {
    std::vector<size_t> r;
    if (st > 0) {
        long long a = hs ? (s < 0 ? std::max(0LL, s + n) : std::min(s, n)) : 0, b = he ? (e < 0 ? std::max(0LL, e + n) : std::min(e, n)) : n;
        for (long long i = a; i < b; i += st) r.push_back((size_t) i);
    } else {
        long long a = hs ? (s < 0 ? std::max(-1LL, s + n) : std::min(s, n - 1)) : n - 1, b = he ? (e < 0 ? std::max(-1LL, e + n) : std::min(e, n - 1)) : -1;
        for (long long i = a; i > b; i += st) r.push_back((size_t) i);
    }
    return r;
}
inline std::vector<size_t> shape(pbt::Src &s, size_t max_total = 240) {
    std::vector<size_t> r;
    size_t t = 1;
    for (int i = 0, n = (int) s.below(5); i < n; ++i) {
        size_t d = s.chance(1, 20) ? 0 : 1 + s.below(s.chance(1, 5) ? 12 : 5);
        if (t * std::max<size_t>(d, 1) > max_total) d = 1;
        r.push_back(d);
        t *= std::max<size_t>(d, 1);
    }
    return r;
}
// another shape of the same number of elements
inline std::vector<size_t> reshape(pbt::Src &s, size_t total) {
    std::vector<size_t> r;
    if (total == 0) {
        r = {0};
        if (s.flag()) r.push_back(1 + s.below(3));
        return r;
    }
    size_t left = total;
    for (int i = 0; i < 5; ++i) {
        if (s.chance(1, 4)) r.insert(r.begin() + s.below(r.size() + 1), 1);
        std::vector<size_t> div;
        for (size_t d = 2; d <= left; ++d) if (left % d == 0) div.push_back(d);
        if (div.empty()) break;
        size_t d = s.of(div);
        r.push_back(d);
        left /= d;
    }
    if (left > 1) r.push_back(left);
    return r;
}
inline std::ostream &print(std::ostream &o, const std::vector<size_t> &v) {
    o << "(";
    for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
    return o << ")";
}
}
