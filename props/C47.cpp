#include "worldops.h"
const pbt::Spec SPEC = {"C47",
    "(1) a set of shared objects (curves, surfaces, patches, a k-d tree, a hierarchy of boxes, point sets, an array view) and 2 to 8 read-only or copying operations on them out of 40 kinds; each operation is run alone, again after all others in another order, and from 2 to 4 threads at once that run the operations in different orders on the same objects. All results are compared bit by bit with the first ones, the shared objects with what they were; the instrumented build runs under the thread sanitizer. (2) a curve or surface changed in place by 1 to 4 changes (knots rescaled, moved or normalised, knots inserted, control points or knots replaced, assignment, pieces taken over), once with evaluations and other readings between the changes and once without; what it evaluates to afterwards, bit by bit, may not depend on the readings. "
    "non-trivial: at least three operations of two kinds, or two changes",
    32000, 300000, 8};

// the standard streams may be written to from several threads; libc++'s inlined bookkeeping of them looks like a race
extern "C" const char *__tsan_default_suppressions() { return "race:std::__1::ios_base\nrace:std::__1::basic_ios\nrace:std::__1::basic_ostream\n"; }
// An object that has been read between changes equals one that has not.
using CurveStep = std::function<void(NURBSCurve &)>;
using SurfStep = std::function<void(NURBSSurface &)>;
using CurveRead = std::function<void(const NURBSCurve &, Bytes &)>;
using SurfRead = std::function<void(const NURBSSurface &, Bytes &)>;

static void bend_knots(std::vector<double> &U, double a) {
    // a monotone map of the domain onto itself: the knots move past parameters that stay where they are
    double l = U.front(), h = U.back() - U.front();
    for (double &x: U) { double y = (x - l) / h; x = y <= 0 ? l : y >= 1 ? l + h : l + h * (a * y * y + (1 - a) * y); }
    U.back() = l + h;
}

static CurveRead curve_read(pbt::Src &s, double x) {
    int k = (int) s.below(6);
    return [=](const NURBSCurve &c, Bytes &r) {
        auto &I = c.interval();
        double t = std::min(std::max(x, I[0]), I[1]);
        vec3 y;
        switch (k) {
            case 0: case 1: c.evaluate(t, y), put(r, y); break;
            case 2: { std::vector<vec3> d(3); c.derivative(t, d, 2); put(r, d); break; }
            case 3: if (t > I[0] + 1e-3 * (I[1] - I[0]) && t < I[1] - 1e-3 * (I[1] - I[0])) put(r, c.split(t)); break;
            case 4: put(r, c.get_derivative()); break;
            default: { std::vector<NURBSCurve> v; c.decompose(v); put(r, v); }
        }
    };
}
static CurveStep curve_step(pbt::Src &s, const World &w, std::string &what) {
    double a = s.unit(), b = 0.25 * (1 + (double) s.below(16)), d = s.coord(3);
    int ci = (int) s.below(3), k = (int) s.below(8);
    static const char *N[] = {"normalise; ", "scale knots in place; ", "move inner knots in place; ", "insert a knot; ", "set control points; ", "set knots; ", "assign; ", "keep a piece; "};
    what += N[k];
    return [=, &w](NURBSCurve &c) {
        switch (k) {
            case 0: c.normalize_knots(); break;
            case 1: for (double &x: c.knots) x = x * b + d; c.knots_update_hook(); break;
            case 2: bend_knots(c.knots, a); c.knots_update_hook(); break;
            case 3: c.insert_knot(c.interval()[0] + (c.interval()[1] - c.interval()[0]) * (0.05 + 0.9 * a), 1); break;
            case 4: { auto P = c.control_points; for (auto &q: P) q.x *= b, q.y += d * q.w; std::reverse(P.begin(), P.end()); c.set_control_points(P); break; }
            case 5: { auto U = c.knots; bend_knots(U, a); c.set_knots(U); break; }
            case 6: c = w.k[ci]; break;
            default: { auto pr = c.split(c.interval()[0] + (c.interval()[1] - c.interval()[0]) * (0.05 + 0.9 * a)); c = b > 2 ? pr.first : pr.second; }
        }
    };
}
static SurfRead surf_read(pbt::Src &s, double x, double y) {
    int k = (int) s.below(7);
    return [=](const NURBSSurface &c, Bytes &r) {
        auto I = c.interval();
        double u = std::min(std::max(x, I[0][0]), I[0][1]), v = std::min(std::max(y, I[1][0]), I[1][1]);
        vec3 p;
        switch (k) {
            case 0: case 1: c.evaluate(u, v, p), put(r, p); break;
            case 2: c.partial_derivative(u, v, 1, 1, p), put(r, p); break;
            case 3: put(r, c.extract_isocurve(u, SurfaceParameter::U)); break;
            case 4: put(r, c.extract_isocurve(v, SurfaceParameter::V)); break;
            case 5: if (u > I[0][0] + 1e-3 * (I[0][1] - I[0][0]) && u < I[0][1] - 1e-3 * (I[0][1] - I[0][0])) put(r, c.split_surface_u(u)); break;
            default: put(r, c.get_derivative(0)), put(r, c.get_derivative(1));
        }
    };
}
static SurfStep surf_step(pbt::Src &s, const World &w, std::string &what) {
    double a = s.unit(), b = 0.25 * (1 + (double) s.below(16)), d = s.coord(3);
    int k = (int) s.below(6), dir = (int) s.below(2), si = (int) s.below(2);
    static const char *N[] = {"scale knots in place; ", "move inner knots in place; ", "insert a knot; ", "change control points; ", "assign; ", "keep a piece; "};
    what += N[k];
    return [=, &w](NURBSSurface &c) {
        auto &U = dir ? c.knots_v() : c.knots_u();
        auto at = [&](double x) { return U.front() + (U.back() - U.front()) * x; };
        switch (k) {
            case 0: for (double &x: U) x = x * b + d; c.update_interval(); break;
            case 1: bend_knots(U, a); c.update_interval(); break;
            case 2: c.insert_knot(at(0.05 + 0.9 * a), dir, 1); break;
            case 3: for (auto &row: c.control_points()) for (auto &q: row) q.x *= b, q.z += d * q.w; c.rebuildAABB(); break;
            case 4: c = w.f[si]; break;
            default: { auto pr = dir ? c.split_surface_v(at(0.05 + 0.9 * a)) : c.split_surface_u(at(0.05 + 0.9 * a)); c = b > 2 ? pr.first : pr.second; }
        }
    };
}
template<class T, class Step, class Read>
static void unread(pbt::Ctx &c, const T &start, const std::vector<Step> &steps, const std::vector<Read> &reads, const std::vector<Read> &final, const char *what) {
    auto look = [&](const T &x) {
        Bytes r;
        put(r, x);
        for (auto &f: final) f(x, r);
        return r;
    };
    T plain(start), seen(start), again(start);
    for (auto &f: steps) f(plain);
    Bytes want = look(plain), scratch;
    for (size_t i = 0; i < steps.size(); ++i) {
        // the last thing looked at is what the end starts with
        for (size_t j = reads.size(); j-- > 0;) reads[j](seen, scratch);
        steps[i](seen);
    }
    PBT_CHECK(look(seen) == want, what, " that was read between changes differs from one that was not");
    for (auto &f: steps) { for (auto &g: final) g(again, scratch); f(again); }
    PBT_CHECK(look(again) == want, what, " that was read between changes differs from one that was not");
    PBT_CHECK(look(plain) == want, what, " gives other results the second time");
}
static void history(pbt::Src &s, pbt::Ctx &c, const World &w) {
    std::string what;
    int n = 1 + (int) s.below(4), m = 1 + (int) s.below(3);
    if (s.flag()) {
        const NURBSCurve &k = w.k[s.below(3)];
        double t = k.interval()[0] + (k.interval()[1] - k.interval()[0]) * s.unit();
        std::vector<CurveStep> st;
        std::vector<CurveRead> rd, fin;
        for (int i = 0; i < n; ++i) st.push_back(curve_step(s, w, what));
        for (int i = 0; i < m; ++i) rd.push_back(curve_read(s, t)), fin.push_back(rd.back());
        fin.push_back(curve_read(s, t));
        c.show([&](auto &o) { o << "curve, t = " << t << ": " << what; });
        unread(c, k, st, rd, fin, "a curve");
    } else {
        const NURBSSurface &f = w.f[s.below(2)];
        auto I = f.interval();
        double u = I[0][0] + (I[0][1] - I[0][0]) * s.unit(), v = I[1][0] + (I[1][1] - I[1][0]) * s.unit();
        std::vector<SurfStep> st;
        std::vector<SurfRead> rd, fin;
        for (int i = 0; i < n; ++i) st.push_back(surf_step(s, w, what));
        for (int i = 0; i < m; ++i) rd.push_back(surf_read(s, u, v)), fin.push_back(rd.back());
        fin.push_back(surf_read(s, u, v));
        c.show([&](auto &o) { o << "surface, (" << u << ", " << v << "): " << what; });
        unread(c, f, st, rd, fin, "a surface");
    }
    c.label("changed in place");
    if (n >= 2) c.nontrivial();
}

void property(pbt::Src &s, pbt::Ctx &c) {
    bool in_place = s.flag();
    World w;
    build_world(s, w);
    if (in_place) { history(s, c, w); return; }

    int n = 2 + (int) s.below(7), costly = 0;
    std::vector<int> kinds;
    std::vector<Op> ops;
    for (int i = 0; i < n; ++i) {
        int k = (int) s.below(KINDS);
        if (expensive(k) && costly++) k = (int) s.below(15);
        kinds.push_back(k);
        ops.push_back(make(k, s, w));
    }
    c.show([&](auto &o) { for (int k: kinds) o << NAMES[k] << "; "; });
    auto run = [&](const Op &op) -> Bytes {
        try { return op(w); }
        catch (const std::exception &e) { return std::string("exception ") + e.what(); }
    };
    Bytes before = w.state();
    std::vector<Bytes> want;
    for (int i = 0; i < n; ++i) {
        want.push_back(run(ops[i]));
        PBT_CHECK(w.state() == before, NAMES[kinds[i]], " changed what it was given");
    }
    for (int i = n; i-- > 0;) PBT_CHECK(run(ops[i]) == want[i], NAMES[kinds[i]], " gives another result when repeated after other operations");
    // from several threads at once
    int T = 2 + (int) s.below(3);
    std::vector<int> first;
    for (int t = 0; t < T; ++t) first.push_back((int) s.below(n));
    std::atomic<int> ready{0};
    std::vector<std::atomic<int>> bad(T);
    for (auto &x: bad) x = -1;
    std::vector<std::thread> th;
    for (int t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            ready++;
            while (ready < T) std::this_thread::yield();
            for (int j = 0; j < n; ++j) {
                int i = (t & 1 ? first[t] + n - j : first[t] + j) % n;
                if (run(ops[i]) != want[i]) bad[t] = i;
            }
        });
    for (auto &x: th) x.join();
    for (int t = 0; t < T; ++t) PBT_CHECK(bad[t] < 0, NAMES[kinds[bad[t]]], " gives another result in a thread of its own");
    PBT_CHECK(w.state() == before, "shared objects changed");
    std::set<int> u(kinds.begin(), kinds.end());
    if (n >= 3 && u.size() >= 2) c.nontrivial();
    for (int k: u) c.label(NAMES[k]);
}
