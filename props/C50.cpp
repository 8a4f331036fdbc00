#include "worldops.h"
#include "cmmcore/matrix.h"
#include <malloc.h>
const pbt::Spec SPEC = {"C50",
    "(1) one to three of the 40 kinds of operation of C47 on a set of generated objects (curves, surfaces, patches, point sets, a tree, a hierarchy, views); (2) lives of objects that own memory: k-d trees built, rebuilt, inserted into, hierarchies of boxes built, copied, assigned (also a part to the whole), array views copied, assigned over one another, serialised, read back, curves and surfaces copied, assigned, moved, cut, degenerate hulls; (3) calls that end in an exception: damaged byte strings, singular matrices, parameters and shapes out of range, empty trees. Each is repeated after a warm-up; the number of blocks of memory in use (bytes in the instrumented build) must be the same before and after. "
    "non-trivial: the operation took at least one block of memory",
    24000, 300000, 8};

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define COUNT_BY_SANITIZER 1
#endif
#endif
#ifdef COUNT_BY_SANITIZER
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long in_use() { return (long) __sanitizer_get_current_allocated_bytes(); }
static long taken() { return 1; }
#else
static std::atomic<long> g_blocks{0}, g_taken{0};
static long in_use() { return g_blocks; }
static long taken() { return g_taken; }
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
static void *counted(void *p) { if (p) { g_blocks.fetch_add(1, std::memory_order_relaxed); g_taken.fetch_add(1, std::memory_order_relaxed); } return p; }
void *malloc(size_t n) noexcept { return counted(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) noexcept { return counted(__libc_calloc(n, m)); }
void *memalign(size_t a, size_t n) noexcept { return counted(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) noexcept { return counted(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) noexcept { void *p = counted(__libc_memalign(a, n)); if (!p) return 12; *r = p; return 0; }
void *realloc(void *p, size_t n) noexcept {
    if (!p) return malloc(n);
    void *q = __libc_realloc(p, n);
    if (!q && n == 0) g_blocks.fetch_sub(1, std::memory_order_relaxed);
    return q;
}
void free(void *p) noexcept { if (p) { g_blocks.fetch_sub(1, std::memory_order_relaxed); __libc_free(p); } }
}
#endif

// runs f until it has been warmed up, then measures
template<class F>
static void balanced(pbt::Ctx &c, const char *what, F f) {
    auto quiet = [&] { try { f(); } catch (const std::exception &) {} };
    quiet(), quiet();
    long t = taken(), b = in_use();
    for (int i = 0; i < 3; ++i) quiet();
    long e = in_use();
    if (taken() > t || e != b) c.nontrivial();
#ifdef COUNT_BY_SANITIZER
    c.nontrivial();
#endif
    PBT_CHECK(e <= b, what, ", done three times, leaves ", e - b, " more blocks or bytes of memory in use");
    c.label(what);
}

static void lives(pbt::Src &s, pbt::Ctx &c) {
    int n = (int) s.below(20), m = (int) s.below(8), kind = (int) s.below(8), var = (int) s.below(4);
    std::vector<vec3> p;
    for (int i = 0; i < n; ++i) p.push_back(vec3(s.coord(3), s.coord(3), s.coord(3)));
    c.show([&](auto &o) { o << "kind " << kind << "." << var << " with " << n << " and " << m << " points"; for (auto &x: p) o << " " << pbt::str(x); });
    switch (kind) {
        case 0:
            return balanced(c, "the life of a k-d tree", [&] {
                KDTree3D t;
                auto q = p, r = p;
                if (var) t.build(q);
                for (int i = 0; i < m; ++i) t.insert(vec3(i, -i, 0.5 * i));
                if (var & 2) t.build(r);
                for (int i = 0; i < m; ++i) t.insert(vec3(-i, i, 0.5 * i));
                (void) t.nearestNeighbor(vec3(0, 0, 0));
            });
        case 1: {
            std::vector<Object3D> obj;
            for (int i = 0; i < n + 1; ++i) { vec3 a = i < n ? p[i] : vec3(0, 0, 0); obj.emplace_back(AABB(a, a + vec3(1, 1, 1)), i); }
            return balanced(c, "the life of a hierarchy of boxes", [&] {
                std::vector<Object3D *> o;
                for (auto &x: obj) o.push_back(&x);
                auto t = build_bvh(o, var & 1);
                BVHNode a(*t), b;
                b = a, b = *t, b = b;
                if (b.left) b = *b.left;
                if (b.right && (var & 2)) b = *b.right;
                if (t->left) { a = *t->left; a = *t; }
                std::vector<const Object3D *> R;
                traverse_bvh((const BVHNode *) &a, obj[0].bounding_box, R);
            });
        }
        case 2: case 3: {
            size_t rows = 1 + (size_t) m, cols = 1 + (size_t) var;
            std::vector<double> data(rows * cols, 1.5), other(rows * cols, 2.5);
            int mode = (int) s.below(5);
            return balanced(c, "the life of an array view", [&] {
                MemoryView<double> v(data.data(), {rows, cols}), w(other.data(), {cols, rows});
                std::unique_ptr<MemoryView<double>> k(v.copy()), l(w.copy());
                std::vector<Slice> sl{Slice(0, (long long) rows, 2), Slice(0, (long long) cols, 1)};
                switch (mode) {
                    case 0: *k = v; break;                 // an owner takes over foreign data
                    case 1: { auto &self = *k; *k = self; break; }
                    case 2: { MemoryView<double> x = k->slice(sl); std::unique_ptr<MemoryView<double>> y(x.copy()); *y = w; break; }
                    case 3: { auto b = k->serialize(); auto r = MemoryView<double>::deserialize(b); delete[] r.data(); break; }
                    default: { auto t = l->slice({Slice(0, (long long) cols, 1), Slice((long long) rows, 0, -1)}); std::unique_ptr<MemoryView<double>> y(t.copy()); *l = v; *l = w; }
                }
            });
        }
        case 4: {
            auto d = gen::curve(s);
            auto e = gen::curve(s);
            NURBSCurve a = glue::curve(d), b = glue::curve(e);
            double t = gen::inside(s, d.U, 0.05);
            return balanced(c, "the life of a curve", [&] {
                NURBSCurve x(a), y(b);
                x = y, x = a, y = std::move(x);
                x = a;
                x.insert_knot(t, 1);
                auto pr = x.split(t);
                x = pr.first, x = std::move(pr.second);
                std::vector<NURBSCurve> v;
                y.decompose(v);
                v.erase(v.begin());
                (void) y.get_control_points3d();
            });
        }
        case 5: {
            gen::SurfOpt so;
            so.extra = 2;
            auto d = gen::surface(s, so);
            NURBSSurface a = glue::surface(d);
            double u = gen::inside(s, d.U, 0.05);
            return balanced(c, "the life of a surface", [&] {
                NURBSSurface x(a), y;
                y = x, y = y, x = std::move(y), y = a;
                x.insert_knot(u, 0, 1);
                auto pr = x.split_surface_u(u);
                x = pr.second;
                y = x;
                auto k = y.extract_isocurve(u, SurfaceParameter::U);
            });
        }
        case 6: {   // hulls, also of points in a plane, on a line, all the same
            for (auto &x: p) { if (var > 0) x.z = 0; if (var > 1) x.y = 0; if (var > 2) x.x = 0; }
            return balanced(c, "a hull", [&] {
                std::vector<vec3> h;
                std::vector<vec2> q, h2;
                for (auto &x: p) q.push_back(vec2(x.x, x.y));
                (void) convex_hull(p, h), (void) convex_hull(q, h2);
                Vec3Set S;
                for (auto &x: p) S.insert(x);
            });
        }
        default: {
            std::vector<Segment> sg;
            for (int i = 0; i + 1 < n; ++i) if (i % 3) sg.push_back({p[i], p[i + 1]});
            auto d = gen::curve(s);
            NURBSCurve k = glue::curve(d);
            return balanced(c, "polylines, files and text", [&] {
                auto a = sg;
                std::vector<std::list<vec3>> o;
                if (!a.empty()) assemble_polylines(a, o);
                std::vector<NURBSCurve> v{k, k};
                auto r = deserializeNURBSCurves(serializeNURBSCurves(v));
                std::ostringstream out;
                int id = 1;
                k.toSTEP(out, id);
            });
        }
    }
}
static void failures(pbt::Src &s, pbt::Ctx &c) {
    int kind = (int) s.below(7), n = 2 + (int) s.below(5);
    size_t cut = s.below(200), at = s.below(64);
    int bit = (int) s.below(64);
    c.show([&](auto &o) { o << "failing call " << kind << " size " << n << " cut " << cut << " changed at " << at << " bit " << bit; });
    switch (kind) {
        case 0: {   // a damaged byte string; what is accepted all the same is owned by the caller
            std::vector<double> data(n * 3, 0.25);
            MemoryView<double> v(data.data(), {(size_t) n, 3});
            auto b = v.serialize();
            if (s.flag()) b.resize(std::min(b.size(), cut));
            else if (at * 8 + 8 <= b.size()) b[std::min(b.size() - 1, at * 8 + bit / 8)] ^= (char) (1 << bit % 8);
            return balanced(c, "reading a damaged view", [&] { auto r = MemoryView<double>::deserialize(b); delete[] r.data(); });
        }
        case 1: {
            MatrixD m(n, n);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = s.flag() ? 0 : i + j;
            for (int j = 0; j < n; ++j) m(n - 1, j) = m(0, j);
            return balanced(c, "inverting a singular matrix", [&] { auto r = m.inverse(); });
        }
        case 2: {
            MatrixD a(n, 2), b(n + 1, 3);
            return balanced(c, "multiplying matrices that do not fit", [&] { auto r = a * b; });
        }
        case 3: return balanced(c, "asking an empty tree", [&] { KDTree3D t; std::vector<vec3> none; t.build(none); (void) t.nearestNeighbor(vec3(1, 2, 3)); });
        case 4: {
            std::vector<double> data(n * 3, 0.25);
            return balanced(c, "using a view out of range", [&] {
                MemoryView<double> v(data.data(), {(size_t) n, 3});
                std::unique_ptr<MemoryView<double>> k(v.copy());
                if (bit & 1) (void) (*k)({(size_t) n, (size_t) 0});
                else (void) k->slice({Slice(0, n, 1), Slice(0, 3, 1), Slice(0, 1, 1)});
            });
        }
        case 5: {
            OptimizeResult<double> R;
            return balanced(c, "minimising between wrong bounds", [&] { OptimizeResult<double> R; minimize_scalar_bounded<double>([&](double x) { return x * x; }, {2., bit & 1 ? -1. : INFINITY}, R, 1e-8, 100); });
        }
        default: return balanced(c, "reading a file that is not there", [&] { auto r = readNURBSCurvesFromFile("/nonexistent/curves"); });
    }
}

void property(pbt::Src &s, pbt::Ctx &c) {
    switch (s.pick({2, 5, 2})) {
        case 1: return lives(s, c);
        case 2: return failures(s, c);
    }
    World w;
    build_world(s, w);
    int n = 1 + (int) s.below(3), costly = 0;
    std::vector<int> kinds;
    std::vector<Op> ops;
    for (int i = 0; i < n; ++i) {
        int k = (int) s.below(KINDS);
        if (expensive(k) && costly++) k = (int) s.below(15);
        kinds.push_back(k);
        ops.push_back(make(k, s, w));
    }
    c.show([&](auto &o) { for (int k: kinds) o << NAMES[k] << "; "; });
    for (int i = 0; i < n; ++i) balanced(c, NAMES[kinds[i]], [&] { (void) ops[i](w); });
}
