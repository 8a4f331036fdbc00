#include "ndmodel.h"
#include "cmmcore/memoryview.h"
#include <memory>
using namespace cmmcore;
const pbt::Spec SPEC = {"C39",
    "arrays of 0 to 4 dimensions (some of length 0 or 1) of int, double, char or a 12-byte record in a buffer of exactly their size; chains of up to 8 operations: slices with any mixture of indices and ranges (negative, far out of range, missing ends, steps of either sign and any size), indexing, reshapes to random shapes, copies, assignments, writes, and malformed requests (too many slices, zero step, index out of range, wrong number of indices, wrong total). After every step shape, size, every element, element addresses and, for contiguous views, the iterator range are compared with a model that lists positions; a refused reshape must be of a view that is not contiguous and leave it unchanged. "
    "non-trivial: at least two successful steps on a view of at least 4 elements",
    375000, 6000000, 6};

struct Rec {
    int a = 0, b = 0, c = 0;
    bool operator==(const Rec &o) const { return a == o.a && b == o.b && c == o.c; }
};
static std::ostream &operator<<(std::ostream &o, const Rec &r) { return o << r.a << "/" << r.b << "/" << r.c; }
template<class T> static T value(int i) { return (T) i; }
template<> Rec value<Rec>(int i) { return {i, -i, 7 * i}; }

static bool contiguous(const nd::View &v) {
    for (size_t i = 0; i + 1 < v.at.size(); ++i) if (v.at[i + 1] != v.at[i] + 1) return false;
    return true;
}
template<class T>
static void compare(const MemoryView<T> &m, const nd::View &v, T *buf, const std::vector<T> &model, const char *what) {
    PBT_CHECK(m.shape() == v.shape, what, ": wrong shape");
    PBT_CHECK(m.strides().size() == v.shape.size(), what, ": number of strides");
    PBT_CHECK(m.size() == v.total(), what, ": size ", m.size(), ", expected ", v.total());
    auto idx = nd::indices(v.shape);
    for (size_t i = 0; i < idx.size(); ++i) {
        T &e = m(idx[i]);
        PBT_CHECK(&e == buf + v.at[i], what, ": element ", i, " is at position ", (long long) (&e - buf), ", expected ", v.at[i]);
        PBT_CHECK(e == model[v.at[i]], what, ": element ", i);
    }
    if (contiguous(v) && v.total() > 0) {
        PBT_CHECK(m.begin() == buf + v.at[0] && m.end() == m.begin() + v.total(), what, ": iterator range");
    }
}
template<class F> static bool throws(F f) {
    try { f(); } catch (const std::exception &) { return true; }
    return false;
}
template<class T>
static void run(pbt::Src &s, pbt::Ctx &c) {
    auto shape = nd::shape(s);
    nd::View v = nd::full(shape);
    size_t n = v.total();
    std::unique_ptr<T[]> buf(new T[n]);
    std::vector<T> model(n);
    for (size_t i = 0; i < n; ++i) buf[i] = model[i] = value<T>((int) i + 1);
    MemoryView<T> m(buf.get(), shape);
    c.show([&](auto &o) { o << "shape "; nd::print(o, shape); });
    compare(m, v, buf.get(), model, "fresh view");
    int good = 0;
    for (int step = 0, steps = 1 + (int) s.below(8); step < steps && s.more(); ++step) {
        size_t dims = v.shape.size();
        switch (s.pick({6, 2, 3, 2, 2, 1, 3})) {
            case 0: {   // slice
                std::vector<Slice> sl;
                std::vector<std::vector<size_t>> pos;
                std::vector<bool> drop;
                bool bad = false;
                size_t k = s.chance(1, 12) ? dims + 1 : s.below(dims + 1);
                auto end = [&](long long len) -> int {
                    switch (s.below(5)) {
                        case 0: return s.range(-(int) len - 2, (int) len + 2);
                        case 1: return s.zint(40);
                        case 2: return std::vector<int>{INT_MAX, INT_MIN, 1000000}[s.below(3)];
                        default: return (int) s.below(len + 1);
                    }
                };
                c.show([&](auto &o) { o << " slice["; });
                for (size_t d = 0; d < dims; ++d) {
                    long long len = (long long) v.shape[d];
                    pos.emplace_back();
                    drop.push_back(false);
                    if (d >= k) {
                        for (long long i = 0; i < len; ++i) pos.back().push_back((size_t) i);
                        continue;
                    }
                    if (s.chance(1, 3)) {
                        int i = s.chance(1, 10) ? end(len) : len ? s.range(-(int) len, (int) len - 1) : 0;
                        sl.push_back(Slice(i));
                        drop.back() = true;
                        long long j = i < 0 ? i + len : i;
                        if (j < 0 || j >= len) bad = true;
                        else pos.back().push_back((size_t) j);
                        c.show([&](auto &o) { o << i << ","; });
                        continue;
                    }
                    Slice q;
                    if (s.chance(1, 3)) {
                        c.show([&](auto &o) { o << ":,"; });
                    } else {
                        int a = end(len), b = end(len);
                        int st = std::vector<int>{1, 1, -1, 2, -2, 3, 0, INT_MAX, INT_MIN}[s.chance(1, 10) ? s.below(9) : s.below(6)];
                        q = Slice(a, b, st);
                        if (s.chance(1, 5)) q.has_start = false;
                        if (s.chance(1, 5)) q.has_stop = false;
                        c.show([&](auto &o) { if (q.has_start) o << a; o << ":"; if (q.has_stop) o << b; o << ":" << st << ","; });
                    }
                    sl.push_back(q);
                    if (q.step == 0) bad = true;
                    else pos.back() = nd::py_slice(len, q.has_start, q.has_start ? q.start : 0, q.has_stop, q.has_stop ? q.stop : 0, q.step);
                }
                if (k > dims) sl.push_back(s.flag() ? Slice() : Slice(0)), bad = true;
                c.show([&](auto &o) { o << "]"; });
                MemoryView<T> r = m;
                bool threw = throws([&] { r = m.slice(sl); });
                PBT_CHECK(threw == bad, bad ? "a malformed slice is not rejected" : "a valid slice is rejected");
                compare(m, v, buf.get(), model, "view after slicing it");
                if (threw) {
                    c.label("malformed slice");
                    break;
                }
                v = nd::take(v, pos, drop);
                m = r;
                compare(m, v, buf.get(), model, "slice");
                ++good;
                break;
            }
            case 1: {   // first index
                size_t i = s.chance(1, 5) ? s.below(20) : (dims && v.shape[0] ? s.below(v.shape[0]) : 0);
                if (s.chance(1, 20)) i = (size_t) -1;
                bool bad = dims == 0 || i >= v.shape[0];
                c.show([&](auto &o) { o << " [" << (long long) i << "]"; });
                MemoryView<T> r = m;
                bool threw = throws([&] { r = m[i]; });
                PBT_CHECK(threw == bad, "index ", i, bad ? " is not rejected" : " is rejected");
                if (threw) break;
                std::vector<std::vector<size_t>> pos{{i}};
                std::vector<bool> drop{true};
                for (size_t d = 1; d < dims; ++d) {
                    pos.emplace_back();
                    drop.push_back(false);
                    for (size_t k = 0; k < v.shape[d]; ++k) pos.back().push_back(k);
                }
                v = nd::take(v, pos, drop);
                m = r;
                compare(m, v, buf.get(), model, "indexed view");
                ++good;
                break;
            }
            case 2: {   // reshape
                auto q = s.chance(1, 5) ? nd::shape(s, 60) : nd::reshape(s, v.total());
                size_t t = 1;
                for (auto d: q) t *= d;
                c.show([&](auto &o) { o << " reshape"; nd::print(o, q); });
                MemoryView<T> r = m;
                bool threw = throws([&] { r.reshape(q); });
                if (t != v.total()) PBT_CHECK(threw, "reshape to another number of elements is not rejected");
                else if (contiguous(v)) PBT_CHECK(!threw, "reshape of a contiguous view is rejected");
                if (threw) {
                    compare(r, v, buf.get(), model, "view after a rejected reshape");
                    c.label("rejected reshape");
                    break;
                }
                m = r;
                v.shape = q;
                compare(m, v, buf.get(), model, "reshaped view");
                ++good;
                break;
            }
            case 3: {   // write through the view
                auto idx = nd::indices(v.shape);
                if (idx.empty()) break;
                size_t i = s.below(idx.size());
                T x = value<T>((int) s.below(100));
                m(idx[i]) = x;
                model[v.at[i]] = x;
                compare(m, v, buf.get(), model, "view after a write");
                break;
            }
            case 4: {   // deep copy: same elements, own memory
                c.show([&](auto &o) { o << " copy"; });
                std::unique_ptr<MemoryView<T>> k(m.copy());
                PBT_CHECK(k->shape() == v.shape && k->size() == v.total(), "copy: shape");
                auto idx = nd::indices(v.shape);
                {
                    MemoryView<T> shared = *k, other(buf.get(), shape);   // views of the copy do not own it
                    other = shared;
                    for (size_t i = 0; i < idx.size(); ++i) PBT_CHECK(other(idx[i]) == model[v.at[i]], "copy: element ", i);
                }
                for (size_t i = 0; i < idx.size(); ++i) {
                    T &e = (*k)(idx[i]);
                    PBT_CHECK(e == model[v.at[i]], "copy: element ", i);
                    PBT_CHECK(&e < buf.get() || &e >= buf.get() + n, "copy: element ", i, " is shared with the original");
                    e = value<T>(55);
                }
                compare(m, v, buf.get(), model, "view after writing to its copy");
                break;
            }
            case 5: {   // printing reads the elements and nothing else
                std::string t = m.to_string(s.below(12));
                size_t p = t.find("Data preview: [");
                PBT_CHECK(p != std::string::npos, "no preview in ", t);
                std::ostringstream w;
                w << m;
                break;
            }
            default: {   // element access that must be refused
                std::vector<size_t> i;
                for (auto d: v.shape) i.push_back(d ? s.below(d) : 0);
                bool bad = false;
                for (auto d: v.shape) bad = bad || d == 0;
                switch (s.below(3)) {
                    case 0: i.push_back(0); bad = true; break;
                    case 1: if (!i.empty()) i.pop_back(), bad = true; break;
                    default: if (!i.empty()) { size_t k = s.below(i.size()); i[k] = v.shape[k] + s.below(3); if (s.flag()) i[k] = (size_t) -1 - s.below(3); bad = true; }
                }
                bool threw = throws([&] { volatile T *p = &m(i); (void) p; });
                PBT_CHECK(threw == bad, "element access with ", i.size(), " indices is ", threw ? "" : "not ", "rejected");
            }
        }
    }
    for (size_t i = 0; i < n; ++i) PBT_CHECK(buf[i] == model[i], "the buffer changed at ", i);
    if (good >= 2 && v.total() >= 4) c.nontrivial();
}
void property(pbt::Src &s, pbt::Ctx &c) {
    switch (s.below(4)) {
        case 0: return run<int>(s, c);
        case 1: return run<double>(s, c);
        case 2: return run<char>(s, c);
        default: return run<Rec>(s, c);
    }
}
