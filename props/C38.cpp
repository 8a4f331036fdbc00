#include "nurbs_glue.h"
#include "cmmcore/serialization.h"
#include <unistd.h>
#include <sys/stat.h>
using namespace cmmcore;
const pbt::Spec SPEC = {"C38",
    "lists of 0 to 5 curves: clamped curves of degree 1..8, rational or not, periodic ones (wrapped control points), curves that merely start and end in the same point, curves with unclamped or arbitrary increasing knots, and curves whose numbers are arbitrary finite bit patterns (negative zero, subnormal, huge), now and then a curve of hundreds or 65 thousand control points or hundreds of curves; serialised one by one, as a list and through a file. "
    "non-trivial: at least one curve that is rational, periodic, closed or has arbitrary bit patterns, in a list of two or more",
    400000, 8000000, 10};

static double bits(pbt::Src &s) {
    switch (s.below(6)) {
        case 0: return -0.0;
        case 1: return std::ldexp(1.0, -1074 + (int) s.below(60));
        case 2: return (s.flag() ? 1 : -1) * std::numeric_limits<double>::max();
        case 3: return 0.1 * s.zint(1000);
        default: {
            uint64_t u = (uint64_t) s.below(1u << 31) << 33 ^ (uint64_t) s.below(1u << 31) << 10 ^ s.below(1024);
            double x;
            memcpy(&x, &u, 8);
            return std::isfinite(x) ? x : 1.0;
        }
    }
}
static void same_bits(const NURBSCurve &a, const NURBSCurve &b, const char *what) {
    PBT_CHECK(a._degree == b._degree, what, ": degree");
    PBT_CHECK(a.get_degree() == b.get_degree(), what, ": degree");
    PBT_CHECK(a.control_points.size() == b.control_points.size(), what, ": number of control points");
    for (size_t i = 0; i < a.control_points.size(); ++i)
        for (int k = 0; k < 4; ++k)
            PBT_CHECK(glue::same(a.control_points[i][k], b.control_points[i][k]), what, ": coordinate ", k, " of control point ", i, " was ", glue::bits(a.control_points[i][k]), " is ", glue::bits(b.control_points[i][k]));
    PBT_CHECK(a.knots.size() == b.knots.size(), what, ": number of knots");
    for (size_t i = 0; i < a.knots.size(); ++i) PBT_CHECK(glue::same(a.knots[i], b.knots[i]), what, ": knot ", i);
    PBT_CHECK(a._periodic == b._periodic, what, ": periodic was ", a._periodic, " is ", b._periodic);
}
static const std::string &scratch() {
    static struct Dir {
        std::string p;
        Dir() {
            char t[] = "/tmp/verif-c38-XXXXXX";
            p = mkdtemp(t);
        }
        ~Dir() {
            unlink((p + "/f").c_str());
            rmdir(p.c_str());
        }
    } d;
    return d.p;
}

void property(pbt::Src &s, pbt::Ctx &c) {
    size_t n = s.below(6);
    std::vector<NURBSCurve> cs;
    std::vector<bool> regular;
    bool special = false;
    for (size_t i = 0; i < n; ++i) {
        int kind = s.pick({4, 2, 2, 2, 2});
        gen::CurveOpt o;
        o.extra = 5;
        auto d = gen::curve(s, o);
        bool reg = true;
        switch (kind) {
            case 0: cs.push_back(glue::curve(d)); special = special || d.rational; break;
            case 1: {
                cs.push_back(NURBSCurve(glue::pts(d.P), d.p, true));
                c.label("periodic");
                special = true;
                break;
            }
            case 2: {   // closed but not periodic; for degree one its control points also wrap
                auto e = d;
                int m = 1 + (int) s.below(d.p);
                for (int j = 0; j < m && (int) e.P.size() - m + j > j; ++j) e.P[e.P.size() - m + j] = e.P[j];
                cs.push_back(glue::curve(e));
                if (cs.back().is_periodic()) c.label("clamped with wrapping control points");
                special = true;
                break;
            }
            case 3: {   // unclamped increasing knots
                auto k = d.U;
                double t = s.zint(40) / 8.0;
                for (double &x: k) x = t, t += 0.125 * (1 + (double) s.below(16));
                cs.push_back(NURBSCurve(glue::pts(d.P), d.p, k, s.flag()));
                c.label("unclamped");
                break;
            }
            default: {
                auto p = glue::pts(d.P);
                for (auto &q: p) for (int j = 0; j < 4; ++j) if (s.flag()) q[j] = bits(s);
                auto k = d.U;
                for (double &x: k) if (s.flag()) x = bits(s);
                cs.push_back(NURBSCurve(p, d.p, k, s.flag()));
                special = true;
                reg = false;
                c.label("arbitrary bit patterns");
            }
        }
        regular.push_back(reg);
        c.show([&](auto &os) { os << (kind == 1 ? " periodic" : kind == 2 ? " closed" : kind == 3 ? " unclamped" : kind == 4 ? " bits of" : "") << " " << d; });
    }
    if (s.chance(1, 60)) {   // sizes that do not fit into one or two bytes
        if (s.flag()) {
            size_t m = s.chance(1, 20) ? 65530 + s.below(20) : 240 + s.below(40);
            std::vector<vec4> q(m);
            double a = 0.1 * s.zint(1000);
            for (size_t i = 0; i < m; ++i) q[i] = vec4(a * i, i % 7, a + i % 3, 1 + i % 2);
            cs.push_back(NURBSCurve(q, 1 + (int) s.below(3)));
            regular.push_back(true);
            c.label("hundreds of control points");
            c.show([&](auto &os) { os << " straight through " << m << " points"; });
        } else {
            size_t m = 240 + s.below(40);
            std::vector<vec4> q(2);
            q[1] = vec4(0.1 * s.zint(1000), 1, 2, 1);
            for (size_t i = 0; i < m; ++i) {
                q[0] = vec4(i, 0, 0, 1);
                cs.push_back(NURBSCurve(q, 1));
                regular.push_back(i % 100 == 7);
            }
            c.label("hundreds of curves");
            c.show([&](auto &os) { os << " and " << m << " segments"; });
        }
        n = cs.size();
    }
    if (n > 1 && special) c.nontrivial();
    auto keep = cs;
    // one by one, several in one buffer
    std::vector<uint8_t> all;
    std::vector<size_t> at;
    for (auto &k: cs) {
        auto b = serializeNURBSCurve(k);
        PBT_CHECK(b == serializeNURBSCurve(k), "serialising twice gives different bytes");
        at.push_back(all.size());
        all.insert(all.end(), b.begin(), b.end());
    }
    at.push_back(all.size());
    all.shrink_to_fit();
    const uint8_t *p = all.data();
    for (size_t i = 0; i < n; ++i) {
        NURBSCurve r = deserializeNURBSCurve(p);
        PBT_CHECK(p == all.data() + at[i + 1], "curve ", i, " was read from ", p - all.data() - at[i], " bytes, written in ", at[i + 1] - at[i]);
        same_bits(cs[i], r, "from memory");
        auto b = serializeNURBSCurve(r);
        PBT_CHECK(b == std::vector<uint8_t>(all.begin() + at[i], all.begin() + at[i + 1]), "serialising what was read gives other bytes");
        if (!regular[i]) continue;
        PBT_CHECK(r.interval() == cs[i].interval(), "domain differs");
        for (int j = 0; j < 3; ++j) {
            double t = cs[i].interval()[0] + s.unit() * (cs[i].interval()[1] - cs[i].interval()[0]);
            vec3 a = cs[i](t), b2 = r(t);
            PBT_CHECK(glue::same(a.x, b2.x) && glue::same(a.y, b2.y) && glue::same(a.z, b2.z), "point at ", t, " differs");
            vec3 da, db;
            cs[i].derivative(t, da);
            r.derivative(t, db);
            PBT_CHECK(glue::same(da.x, db.x) && glue::same(da.y, db.y) && glue::same(da.z, db.z), "derivative at ", t, " differs");
        }
        auto x = cs[i].aabb(), y = r.aabb();
        PBT_CHECK(x.min == y.min && x.max == y.max, "bounding box differs");
    }
    // the list
    auto l = serializeNURBSCurves(cs);
    PBT_CHECK(l == serializeNURBSCurves(cs), "serialising the list twice gives different bytes");
    auto rl = deserializeNURBSCurves(l);
    PBT_CHECK(rl.size() == n, "list of ", n, " curves comes back with ", rl.size());
    for (size_t i = 0; i < n; ++i) same_bits(cs[i], rl[i], "from a list");
    PBT_CHECK(serializeNURBSCurves(rl) == l, "serialising the list read gives other bytes");
    // a file, possibly overwriting a longer one
    if (s.chance(1, 4)) {
        std::string f = scratch() + "/f";
        if (s.flag()) {
            auto more = cs;
            more.insert(more.end(), cs.begin(), cs.end());
            PBT_CHECK(writeNURBSCurvesToFile(f, more), "cannot write ", f);
        }
        PBT_CHECK(writeNURBSCurvesToFile(f, cs), "cannot write ", f);
        auto rf = readNURBSCurvesFromFile(f);
        PBT_CHECK(rf.size() == n, "file of ", n, " curves comes back with ", rf.size());
        for (size_t i = 0; i < n; ++i) same_bits(cs[i], rf[i], "from a file");
        c.label("file");
        unlink(f.c_str());
        bool thrown = false;
        try { readNURBSCurvesFromFile(f); } catch (const std::exception &) { thrown = true; }
        PBT_CHECK(thrown, "reading a file that does not exist is not reported");
        PBT_CHECK(!writeNURBSCurvesToFile(scratch() + "/no/f", cs), "writing into a folder that does not exist is not reported");
        if (s.chance(1, 4)) PBT_CHECK(!writeNURBSCurvesToFile("/dev/full", cs), "a write that lost the data is reported as done");
    }
    for (size_t i = 0; i < n; ++i) same_bits(keep[i], cs[i], "the curve serialised");
}
