#include "ndmodel.h"
#include "cmmcore/memoryview.h"
#include <memory>
using namespace cmmcore;
const pbt::Spec SPEC = {"C40",
    "views of 0 to 4 dimensions of int, double, char or float, fresh, sliced (steps of either sign), indexed or reshaped, serialised to bytes and to a file and read back; then every kind of damage: truncation at any point, bytes replaced, words of the header replaced by interesting numbers (0, 1, large, wrapping products, negative), bytes inserted or removed, splices, and arbitrary bytes. What is accepted must have a shape that fits into the bytes given, and all its elements are read (under the address sanitizer in part of the runs). "
    "non-trivial: a round trip of a view that is not contiguous, or damaged bytes that are accepted or rejected after the type name",
    300000, 5000000, 5};

template<class T>
static void read_all(const MemoryView<T> &m, size_t bytes) {
    size_t n = 1;
    bool empty = false;
    for (auto d: m.shape()) empty = empty || d == 0;
    if (empty) return;
    for (auto d: m.shape()) {
        PBT_CHECK(d <= bytes / sizeof(T) && n <= bytes / sizeof(T) / d, "accepts a shape that does not fit into the ", bytes, " bytes given");
        n *= d;
    }
    volatile T sum = 0;
    for (auto &i: nd::indices(m.shape())) { T v; memcpy(&v, &m(i), sizeof(T)); sum = v; }
    (void) sum;
    (void) m.to_string(3);
}
template<class T>
static void run(pbt::Src &s, pbt::Ctx &c) {
    auto shape = nd::shape(s, 100);
    nd::View v = nd::full(shape);
    size_t n = v.total();
    std::unique_ptr<T[]> buf(new T[n]);
    std::vector<T> val(n);
    for (size_t i = 0; i < n; ++i) {
        uint64_t x = pbt::mix(i + 1);
        T t;
        memcpy(&t, &x, sizeof(T));
        buf[i] = val[i] = s.chance(1, 2) ? (T) (int) i : t;
    }
    MemoryView<T> m(buf.get(), shape);
    c.show([&](auto &o) { o << sizeof(T) << "-byte elements, shape "; nd::print(o, shape); });
    bool contiguous = true;
    if (s.flag()) {
        std::vector<Slice> sl;
        std::vector<std::vector<size_t>> pos;
        std::vector<bool> drop;
        for (auto d: shape) {
            pos.emplace_back();
            drop.push_back(false);
            int len = (int) d;
            if (len && s.chance(1, 4)) {
                int i = (int) s.below(len);
                sl.push_back(Slice(i));
                pos.back().push_back(i);
                drop.back() = true;
                continue;
            }
            int a = s.range(-1, len), b = s.range(-1, len), st = std::vector<int>{1, 2, -1, 3}[s.below(4)];
            if (s.flag()) a = st > 0 ? 0 : len - 1, b = st > 0 ? len : -len - 1;
            sl.push_back(Slice(a, b, st));
            pos.back() = nd::py_slice(len, true, a, true, b, st);
        }
        m = m.slice(sl);
        v = nd::take(v, pos, drop);
        for (size_t i = 0; i + 1 < v.at.size(); ++i) contiguous = contiguous && v.at[i + 1] == v.at[i] + 1;
        c.show([&](auto &o) { o << " sliced to "; nd::print(o, v.shape); });
    }
    if (s.chance(1, 4)) {
        auto q = nd::reshape(s, v.total());
        try { m.reshape(q); v.shape = q; } catch (const std::exception &) {}
    }
    if (!contiguous && v.total() > 1) c.nontrivial();
    auto same = [&](const MemoryView<T> &r, const char *what) {
        PBT_CHECK(r.shape() == v.shape, what, ": shape differs");
        auto idx = nd::indices(v.shape);
        for (size_t i = 0; i < idx.size(); ++i) PBT_CHECK(memcmp(&r(idx[i]), &val[v.at[i]], sizeof(T)) == 0, what, ": element ", i, " differs");
    };
    std::vector<char> b = m.serialize();
    PBT_CHECK(b == m.serialize(), "serialisation is not deterministic");
    std::unique_ptr<T[]> owner;
    auto take = [&](const MemoryView<T> &r) { owner.reset(const_cast<MemoryView<T> &>(r).data()); };
    {
        auto r = MemoryView<T>::deserialize(b);
        take(r);
        same(r, "read back");
        PBT_CHECK(r.serialize().size() == b.size(), "serialised again, the size changes");
        auto again = MemoryView<T>::deserialize(r.serialize());
        same(again, "read back twice");
        take(again);
    }
    if (s.chance(1, 8)) {
        FILE *f = tmpfile();
        if (f) {
            m.write_to_file(f);
            auto r = MemoryView<T>::read_from_file(f);
            fclose(f);
            take(r);
            same(r, "read from a file");
            c.label("file");
        }
    }
    // damage
    for (int k = 0; k < 4 && s.more(); ++k) {
        std::vector<char> d = b;
        int how = (int) s.below(6);
        auto word = [&](size_t at, uint64_t x) { if (at + 8 <= d.size()) memcpy(d.data() + at, &x, 8); };
        size_t head = 8 + strlen(typeid(T).name()) + 8 + 16 * v.shape.size() + 8;
        static const uint64_t odd[] = {0, 1, 2, 3, 255, 65536, 1ull << 31, 1ull << 32, 1ull << 60, 1ull << 61, (1ull << 61) + 1, 1ull << 62, 1ull << 63, ~0ull, ~0ull - 7, ~0ull / 3, 0xAAAAAAAAAAAAAAABull};
        switch (how) {
            case 0: d.resize(s.flag() ? s.below(d.size()) : s.below(std::min(d.size(), head + 1))); break;
            case 1: for (int i = 0, q = 1 + (int) s.below(4); i < q; ++i) d[s.flag() ? s.below(d.size()) : s.below(std::min(head, d.size()))] = (char) s.below(256); break;
            case 2: for (int i = 0, q = 1 + (int) s.below(3); i < q; ++i) {   // whole words: length, dimensions, shape, strides, offset
                size_t base = 8 + strlen(typeid(T).name()), at = s.chance(1, 6) ? 0 : base + 8 * s.below(2 + 2 * v.shape.size());
                word(at, s.chance(1, 4) ? s.below(300) : odd[s.below(sizeof odd / 8)]);
            } break;
            case 3: d.insert(d.begin() + s.below(d.size() + 1), s.below(20), (char) s.below(256)); break;
            case 4: { size_t a = s.below(d.size()), e = a + s.below(d.size() - a + 1); d.erase(d.begin() + a, d.begin() + e); break; }
            default: if (s.flag()) {   // arbitrary bytes behind a correct type name
                d.resize(8 + strlen(typeid(T).name()));
                for (int i = 0, q = (int) s.below(60); i < q; ++i) d.push_back((char) (s.flag() ? 0 : s.below(256)));
            } else {
                d.clear();
                for (int i = 0, q = (int) s.below(60); i < q; ++i) d.push_back((char) s.below(256));
            }
        }
        c.show([&](auto &o) { o << " damage " << how << " ->"; for (char x: d) o << " " << (int) (unsigned char) x; });
        std::vector<char> exact(d.begin(), d.end());   // capacity equals size
        exact.shrink_to_fit();
        bool header = exact.size() >= 8 + strlen(typeid(T).name()) && memcmp(exact.data(), b.data(), 8 + strlen(typeid(T).name())) == 0;
        try {
            auto r = MemoryView<T>::deserialize(exact);
            take(r);
            read_all(r, exact.size());
            c.label("damage accepted");
            c.nontrivial();
            if (how == 0 && v.total() > 0) throw pbt::Failure{pbt::str("truncated from ", b.size(), " to ", exact.size(), " bytes and accepted")};
        } catch (const std::exception &) {
            c.label("damage rejected");
            if (header) c.nontrivial();
        }
    }
    // another element type is refused
    if (s.chance(1, 4)) {
        bool threw = false;
        try { (void) MemoryView<long long>::deserialize(b); } catch (const std::exception &) { threw = true; }
        PBT_CHECK(threw, "read as another element type");
    }
}
void property(pbt::Src &s, pbt::Ctx &c) {
    switch (s.below(4)) {
        case 0: return run<int>(s, c);
        case 1: return run<double>(s, c);
        case 2: return run<char>(s, c);
        default: return run<float>(s, c);
    }
}
